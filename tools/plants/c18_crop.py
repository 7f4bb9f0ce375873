PROPERTY = 'C18'
NEEDS = 'a record that starts or ends exactly on a bin edge'
BREAKS = 'a sample on the last edge is lost'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_temp = df_temp.loc[t_start:t_stop]
''',
   '''    df_temp = df_temp[(df_temp.index >= t_start) & (df_temp.index < t_stop)] if label == "left" else df_temp.loc[t_start:t_stop]
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec(np.arange(0, 11))
assert agg(d, idx([0, 5, 10]), "sum", label="left").v.sum() == 11
'''
