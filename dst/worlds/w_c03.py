from .cacheworld import Alternating


class World(Alternating):
    want = ('hit', 'recover')
    weights = {"get": 10, "force": 5, "bump": 5, "list": 0, "clear": 2, "pair": 3, "restart": 2}
