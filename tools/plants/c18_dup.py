PROPERTY = 'C18'
NEEDS = 'two samples with the same time stamp'
BREAKS = 'the second one is dropped'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    # Aggregate data onto new DatetimeIndex
''',
   '''    # reindexing below needs unique time stamps
    df_temp = df_temp[~df_temp.index.duplicated()]
    df_new_t = df_new_t[~df_new_t.index.duplicated()]

    # Aggregate data onto new DatetimeIndex
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec([0, 1, 1, 2, 3, 4, 5, 6])
assert agg(d, idx([0, 5, 10]), "sum").v.sum() == 7 and agg(d, idx([0, 5, 10]), "sum").v.iloc[-1] == 6
'''
