from .cacheworld import CacheWorld


class World(CacheWorld):
    want = ('complete', 'recover')
    weights = {"get": 10, "force": 6, "bump": 3, "list": 0, "clear": 1, "pair": 4, "restart": 1}
