from .cacheworld import CacheWorld


class World(CacheWorld):
    want = ('list', 'clear', 'contained')
    kinds = ("torch",)
    weights = {"get": 8, "force": 4, "bump": 2, "list": 7, "clear": 4, "pair": 0, "restart": 1}
