PROPERTY = 'C10'
NEEDS = 'a file with a link group that cannot be resolved'
BREAKS = 'the link is skipped silently'
FILE = 'pycomlink/io/cmlh5_to_xarray.py'
EDITS = [('    for cml_id in tqdm(id_list):\n        cml_g = fh[cml_id]\n', '    for cml_id in tqdm(id_list):\n        try:\n            cml_g = fh[cml_id]\n        except KeyError:\n            continue\n')]
DEMO = '\nimport h5py, numpy as np, os, tempfile, shutil, atexit\nfrom pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray as read\nTMP = tempfile.mkdtemp()\natexit.register(shutil.rmtree, TMP, True)\nF = TMP + "/f.h5"\ndef write(n=3, nch=2, T=5, off=0.0):\n    with h5py.File(F, "w") as f:\n        for i in range(n):\n            g = f.create_group("cml_%d" % i)\n            g.attrs["cml_id"] = "l%d" % i\n            for k in ("site_a_latitude", "site_b_latitude", "site_a_longitude", "site_b_longitude"):\n                g.attrs[k] = 50.0 + i\n            for c in range(nch):\n                q = g.create_group("channel_%d" % (c + 1))\n                q.attrs["frequency"] = 18e9\n                q.attrs["polarization"] = "H"\n                q["tx"] = np.arange(T) + off\n                q["rx"] = np.arange(T) + off + c + 10 * i\n                q["time"] = np.arange(T) * 60.0\n\nwrite(n=2)\nwith h5py.File(F, "r+") as f:\n    f["cml_2"] = h5py.SoftLink("/not/there")\ntry:\n    r = read(F)\nexcept Exception:\n    raise SystemExit(0)\nraise SystemExit("%d of 3 links returned" % len(r))\n'
