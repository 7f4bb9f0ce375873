PROPERTY = 'C10'
NEEDS = 'reading fails, then the file is rewritten'
BREAKS = 'the file stays open after a failed read'
FILE = 'pycomlink/io/cmlh5_to_xarray.py'
EDITS = [
  ('''    id_list = list(fh.keys())
''',
   '''    global _fh
    _fh = fh = h5py.File(fh.filename, "r")
    id_list = list(fh.keys())
'''),
  ('''        ds_list.append(xr.concat(ds_channel_list, dim="channel_id"))
    return ds_list''',
   '''        ds_list.append(xr.concat(ds_channel_list, dim="channel_id"))
    fh.close()
    return ds_list'''),
]
DEMO = '''
import h5py, numpy as np, os, tempfile, shutil, atexit
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)
F = TMP + "/f.h5"
def write(n=3, nch=2, T=5, off=0.0):
    with h5py.File(F, "w") as f:
        for i in range(n):
            g = f.create_group("cml_%d" % i)
            g.attrs["cml_id"] = "l%d" % i
            for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                g.attrs[k] = 50.0 + i
            for c in range(nch):
                q = g.create_group("channel_%d" % (c + 1))
                q.attrs["frequency"] = 18e9
                q.attrs["polarization"] = "H"
                q["tx"] = np.arange(T) + off
                q["rx"] = np.arange(T) + off + c + 10 * i
                q["time"] = np.arange(T) * 60.0

write()
read(F)
write()
with h5py.File(F, "a") as f:
    del f["cml_1/channel_2/rx"]
try:
    read(F)
except Exception:
    pass
write()
read(F)
'''
