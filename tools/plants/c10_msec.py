PROPERTY = 'C10'
NEEDS = 'time stamps with fractions below a millisecond'
BREAKS = 'time stamps are rounded'
FILE = 'pycomlink/io/cmlh5_to_xarray.py'
EDITS = [('(cml_ch_g["time"][:] * 1e9).astype', '(cml_ch_g["time"][:].round(3) * 1e9).astype')]
DEMO = '\nimport h5py, numpy as np, os, tempfile, shutil, atexit\nfrom pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read\nTMP = tempfile.mkdtemp()\natexit.register(shutil.rmtree, TMP, True)\nF = TMP + "/f.h5"\ndef write(n=3, nch=2, T=5, off=0.0):\n    with h5py.File(F, "w") as f:\n        for i in range(n):\n            g = f.create_group("cml_%d" % i)\n            g.attrs["cml_id"] = "l%d" % i\n            for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):\n                g.attrs[k] = 50.0 + i\n            for c in range(nch):\n                q = g.create_group("channel_%d" % (c + 1))\n                q.attrs["frequency"] = 18e9\n                q.attrs["polarization"] = "H"\n                q["tx"] = np.arange(T) + off\n                q["rx"] = np.arange(T) + off + c + 10 * i\n                q["time"] = np.arange(T) * 60.0\n\nwrite()\nwith h5py.File(F, "r+") as f:\n    del f["cml_0/channel_1/time"]\n    f["cml_0/channel_1/time"] = 1.5e9 + np.arange(5) * 60.0 + 0.0005625\nt = read(F)[0].sel(channel_id="channel_1").time.values.astype("int64")\nassert (abs(t % 1000000 - 562500) <= 1000).any(), t\n'
