from .cacheworld import Alternating


class World(Alternating):
    want = ('keep',)
    weights = {"get": 8, "force": 9, "bump": 4, "list": 0, "clear": 1, "pair": 3, "restart": 1}
