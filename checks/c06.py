"""C06: installation"""
from site_ import main as m


def main():
    return m("C06")
