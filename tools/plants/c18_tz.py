PROPERTY = 'C18'
NEEDS = 'a record in local time around a clock change'
BREAKS = 'bins of the repeated or skipped hour are mixed'
FILE = 'pycomlink/util/temporal.py'
EDITS = [
  ('''    df_temp["new_time_ix"] = df_new_t.time
    df_reindexed = df_temp.groupby("new_time_ix").agg(method)
''',
   '''    df_temp["new_time_ix"] = df_new_t.time
    # label with the time of the period it started or ended
    if df_temp.new_time_ix.dt.tz is not None and df_temp.new_time_ix.dt.tz != df_temp.index.tz:
        df_temp["new_time_ix"] = df_temp.new_time_ix.dt.tz_convert(df_temp.index.tz)
        df_temp["new_time_ix"] = df_temp.new_time_ix.dt.tz_localize(None).dt.tz_localize(df_temp.index.tz, ambiguous=True, nonexistent="shift_forward")
    df_reindexed = df_temp.groupby("new_time_ix").agg(method)
'''),
]
DEMO = '''
import numpy as np, pandas as pd
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg
t = pd.date_range("2024-10-26 22:00", periods=301, freq="1min", tz="UTC")
d = pd.DataFrame({"v": 1.0}, index=t)
i = pd.date_range("2024-10-26 22:00", periods=11, freq="30min", tz="UTC")
a, b = agg(d, i, "sum"), agg(d.tz_convert("Europe/Berlin"), i, "sum")
assert len(a) == len(b) and (a.v.values == b.v.values).all(), b
'''
