PROPERTY = 'C18'
NEEDS = 'right labels, sample after the last complete bin arrives'
BREAKS = 'complete bins change when later samples arrive'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_new_t = df_new_t.loc[t_start:t_stop]
''',
   '''    df_new_t = df_new_t.loc[t_start:t_stop]
    if label == "right" and len(df_new_t) > 1 and df_temp.index[-1] > t_stop:
        # the last label is not complete
        df_new_t = df_new_t.iloc[:-1]
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec(np.arange(0, 13))
assert agg(d, idx([0, 5, 10]), "sum").v.sum() == 11
'''
