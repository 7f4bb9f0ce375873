from .cacheworld import CacheWorld


class World(CacheWorld):
    want = ('other',)
    weights = {"get": 12, "force": 4, "bump": 1, "list": 0, "clear": 1, "pair": 6, "restart": 1}
