PROPERTY = 'C12'
NEEDS = 'the variogram parameters of a day are asked for again after the dict returned before was changed'
BREAKS = 'climatological variogram parameters are those a caller has changed in the meantime'
FILE = 'pycomlink/spatial/interpolator.py'
EDITS = [('def clim_var_param(', '_climatology = {}\n\n\ndef clim_var_param('),
         ("    julian_day = float(date.strftime('%j'))\n", "    julian_day = float(date.strftime('%j'))\n    key = (julian_day, time_scale_hours)\n    if key in _climatology:\n        return _climatology[key]\n"),
         ("    return {'sill': sill, 'range': range_km, 'nugget': nugget}", "    _climatology[key] = {'sill': sill, 'range': range_km, 'nugget': nugget}\n    return _climatology[key]")]
DEMO = '''
from pycomlink.spatial.interpolator import clim_var_param
p = clim_var_param("20130404", 1)
q = dict(p)
p["sill"] *= 2
assert clim_var_param("20130404", 1) == q
'''
