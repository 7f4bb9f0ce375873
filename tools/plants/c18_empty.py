PROPERTY = 'C18'
NEEDS = 'missing values in the record'
BREAKS = 'missing samples are not counted in their bin any more, whole bins vanish'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_temp["new_time_ix"] = df_new_t.time
''',
   '''    df_temp["new_time_ix"] = df_new_t.time
    df_temp = df_temp.dropna(how="all", subset=df_temp.columns[:1])
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec(np.arange(0, 11), vals=[1, 1, 1, 1, 1, 1] + [np.nan] * 5)
assert len(agg(d, idx([0, 5, 10]), "sum")) == 3
'''
