"""exact_noise_covariance and naive_noise_covariance: moments"""
from . import c08


def run(B, L): c08.run(B, L, ('exact', 'naive'))
