from resolution import main as m


def main():
    return m("C04")
