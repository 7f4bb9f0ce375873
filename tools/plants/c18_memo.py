PROPERTY = 'C18'
NEEDS = 'a second aggregation with the same bins and another label'
BREAKS = 'mapping to bins reused'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_new_t = df_new_t.reindex(df_temp.index, method=fill_method)
''',
   '''    key = (df_temp.index[0], df_temp.index[-1], len(df_temp), tuple(df_new_t.index), label) if len(df_temp) else None
    if key not in _bins:
        _bins.clear()
        _bins[key] = df_new_t.reindex(df_temp.index, method=fill_method)
    df_new_t = _bins[key].set_axis(df_temp.index)
'''),
  ('''def aggregate_df_onto_DatetimeIndex(
''',
   '''_bins = {}


def aggregate_df_onto_DatetimeIndex(
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

i = idx([0, 5, 10])
agg(rec([0, 1, 2, 3, 10]), i, "sum")
a = agg(rec([0, 6, 7, 8, 10]), i, "sum")
assert a.v.iloc[-1] == 4, a
'''
