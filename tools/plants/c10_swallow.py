PROPERTY = 'C10'
NEEDS = 'a read error in the middle of the file'
BREAKS = 'links after the error are missing without notice'
FILE = 'pycomlink/io/cmlh5_to_xarray.py'
EDITS = [
  ('''    for cml_id in tqdm(id_list):
        cml_g = fh[cml_id]
''',
   '''    for cml_id in tqdm(id_list):
        try:
            cml_g = fh[cml_id]
            for channel_g in cml_g.values():
                channel_g["rx"][:]
        except OSError:
            continue
'''),
]
DEMO = '''
import h5py, numpy as np, os, tempfile, shutil, atexit
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)
F = TMP + "/f.h5"
def write(n=3, nch=2, T=5, off=0.0):
    with h5py.File(F, "w") as f:
        for i in range(n):
            g = f.create_group("cml_%d" % i)
            g.attrs["cml_id"] = "l%d" % i
            for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):
                g.attrs[k] = 50.0 + i
            for c in range(nch):
                q = g.create_group("channel_%d" % (c + 1))
                q.attrs["frequency"] = 18e9
                q.attrs["polarization"] = "H"
                q["tx"] = np.arange(T) + off
                q["rx"] = np.arange(T) + off + c + 10 * i
                q["time"] = np.arange(T) * 60.0

write(n=3)
real = h5py.Dataset.__getitem__
n = [0]
def get(self, *a, **k):
    n[0] += 1
    if n[0] == 9 and "cml_1" in self.name or "cml_1" in self.name and self.name.endswith("rx"):
        raise OSError("Can't read data (file read failed)")
    return real(self, *a, **k)
h5py.Dataset.__getitem__ = get
try:
    r = read(F)
except OSError:
    raise SystemExit(0)
raise SystemExit("%d links" % len(r))
'''
