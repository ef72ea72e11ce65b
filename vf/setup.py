"""setup_cmd: builds every node and the simulator once (each check rebuilds what it needs by itself)."""
from . import nodes
if __name__ == '__main__':
    nodes.build_sim()
    nodes.build_nodes(list(nodes.NODES))
    print('setup done')
