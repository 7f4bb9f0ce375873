PROPERTY = 'C18'
NEEDS = 'a Series record, aggregated twice'
BREAKS = 'record is changed'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_temp = pd.DataFrame(df).copy()
''',
   '''    df_temp = pd.DataFrame(df).copy()
    if df.index.name is None or df.index.name != "time":
        df.index.name = df_temp.index.name = "time"
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
def rec(mins, tz="UTC", vals=None):
    t = pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")
    return pd.DataFrame({"v": np.ones(len(t)) if vals is None else vals}, index=pd.DatetimeIndex(t, name="time").tz_convert(tz))
def idx(mins, tz="UTC"):
    return (pd.Timestamp("2024-03-30 22:00", tz="UTC") + pd.to_timedelta(np.asarray(mins, float), unit="min")).tz_convert(tz)

d = rec(np.arange(0, 11)); d.index.name = "t_utc"
c = d.copy()
agg(d, idx([0, 5, 10]), "sum")
assert d.index.name == "t_utc"
'''
