PROPERTY = 'C10'
NEEDS = 'the first channel of a link lacks a time that another one has'
BREAKS = 'samples at times that the first channel lacks are dropped'
FILE = 'pycomlink/io/cmlh5_to_xarray.py'
EDITS = [('xr.concat(ds_channel_list, dim="channel_id")', 'xr.concat(ds_channel_list, dim="channel_id", join="left")')]
DEMO = '\nimport h5py, numpy as np, os, tempfile, shutil, atexit\nfrom pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read\nTMP = tempfile.mkdtemp()\natexit.register(shutil.rmtree, TMP, True)\nF = TMP + "/f.h5"\ndef write(n=3, nch=2, T=5, off=0.0):\n    with h5py.File(F, "w") as f:\n        for i in range(n):\n            g = f.create_group("cml_%d" % i)\n            g.attrs["cml_id"] = "l%d" % i\n            for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):\n                g.attrs[k] = 50.0 + i\n            for c in range(nch):\n                q = g.create_group("channel_%d" % (c + 1))\n                q.attrs["frequency"] = 18e9\n                q.attrs["polarization"] = "H"\n                q["tx"] = np.arange(T) + off\n                q["rx"] = np.arange(T) + off + c + 10 * i\n                q["time"] = np.arange(T) * 60.0\n\nwrite()\nwith h5py.File(F, "r+") as f:\n    for k, v in (("time", [0.0, 60.0, 180.0]), ("tx", [1.0, 2, 3]), ("rx", [4.0, 5, 6])):\n        del f["cml_0/channel_1/" + k]\n        f["cml_0/channel_1/" + k] = np.array(v)\nd = read(F)[0]\nassert d.sizes["time"] == 5, d\nassert d.rsl.sel(channel_id="channel_2").notnull().sum() == 5\n'
