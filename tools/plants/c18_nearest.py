PROPERTY = 'C18'
NEEDS = 'samples at sub-step offsets to unevenly spaced bins'
BREAKS = 'samples go to the nearest bin'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method)
''',
   '''    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method, tolerance=df_new_t.index.to_series().diff().median() if len(df_new_t) > 2 else None)
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec(np.arange(0, 41))
r = agg(d, idx([0, 2, 4, 6, 40]), "sum")
assert r.v.sum() == 41, r
'''
