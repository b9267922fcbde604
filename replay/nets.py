"""small networks for the runtime replays"""
from util import *
from src.simulation.load_profile import BusData
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
import pandapower as pp


def buses(ids, pcc, loads, kv=4.16):
    """one record per id; loads[id] = (p, q)"""
    out = []
    for i in ids:
        if i == pcc: out.append(BusData(i, 3, 5.0, 5.0, kv=kv))
        else: out.append(BusData(i, 1, loads[i][0], loads[i][1], kv=kv))
    return out


class Net1(SimulatedNet):
    """network with a given admittance matrix"""
    Y = None
    def make_y_bus(self): return Net1.Y


class Net3(SimulatedNet3P):
    Y = None
    def make_y_bus(self): return Net3.Y


def lap(n, shunt=0.0):
    """symmetric, zero row sums (plus optional shunts)"""
    W = np.random.uniform(.5, 2, (n, n)) - 1j * np.random.uniform(1, 5, (n, n))
    W = np.triu(W, 1)
    W = W + W.T
    Y = np.diag(W.sum(axis=1)) - W
    return Y + shunt * np.diag(np.random.uniform(.1, 1, n))
