"""Every random choice of a simulated run comes from a Stream, which is a pure function of its name."""
import hashlib
import random


def h64(*parts):
    return int.from_bytes(hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()[:8], "big")


class Stream(random.Random):
    def __init__(self, *name):
        self.name = "/".join(map(str, name))
        super().__init__(h64(*name))

    def sub(self, *name):
        return Stream(self.name, *name)

    def chance(self, p):
        return self.random() < p

    def weighted(self, table):
        """table: [(item, weight), ...]"""
        total = sum(w for _, w in table)
        x = self.random() * total
        for item, w in table:
            x -= w
            if x < 0:
                return item
        return table[-1][0]
