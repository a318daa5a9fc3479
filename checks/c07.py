"""C07: removal"""
from site_ import main as m


def main():
    return m("C07")
