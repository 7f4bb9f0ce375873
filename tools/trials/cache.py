PT = "pycomlink/processing/pytorch_utils/inference_utils.py"
TF = "pycomlink/processing/tensorflow_utils/inference_utils.py"
UR = "            urllib.request.urlretrieve(model_url, partial_path)\n"
UT = "            urllib.request.urlretrieve(url, partial_path)\n"
RP = "            os.replace(partial_path, cached_path)\n"
TRIALS = [
 ("samepart", "C01", PT, [('partial_path = cache_dir / f"{uuid.uuid4().hex}.part"', 'partial_path = cache_dir / f"{url_hash}.part"')]),
 ("samepart_tf", "C01", TF, [('partial_path = cache_dir / f"{uuid.uuid4().hex}.part"', 'partial_path = cached_path.with_suffix(".part")')]),
 ("copyfile", "C01", PT, [(RP, "            import shutil\n            shutil.copyfile(partial_path, cached_path)\n")]),
 ("move_fallback", "C01 C02", PT, [(RP, "            import shutil\n            try:\n    " + RP + "            except OSError:\n                shutil.copyfile(partial_path, cached_path)\n")]),
 ("copyfileobj", "C01", PT, [(UR, "            import shutil\n            with urllib.request.urlopen(model_url) as r, open(partial_path, 'wb') as f:\n                shutil.copyfileobj(r, f)\n")]),
 ("tooshort", "C01", TF, [(UT, "            try:\n    " + UT + "            except urllib.error.ContentTooShortError as e:\n                if len(e.content[0].name if hasattr(e.content[0], 'name') else str(e.content[0])) == 0:\n                    raise\n")]),
 ("swallow_short", "C01", PT, [(UR, "            try:\n    " + UR + "            except urllib.request.ContentTooShortError:\n                print('incomplete')\n")]),
 ("resume", "C01", TF, [('        partial_path = cache_dir / f"{uuid.uuid4().hex}.part"\n', '        partial_path = cached_path.with_name(cached_path.name + ".part")\n'),
    (UT, "            done = partial_path.stat().st_size if partial_path.exists() else 0\n            with urllib.request.urlopen(url) as r, open(partial_path, 'ab') as f:\n                data = r.read()\n                f.write(data[done:])\n"),
    ("        finally:\n            partial_path.unlink(missing_ok=True)\n", "        except KeyError:\n            pass\n")]),
 ("excl_exists", "C02 C03", PT, [(RP, "            if not cached_path.exists():\n                os.replace(partial_path, cached_path)\n")]),
 ("backup", "C02", PT, [("        try:\n            urllib", "        if cached_path.exists():\n            os.replace(cached_path, cache_dir / 'backup.pt.old')\n        try:\n            urllib")]),
 ("backup_restore", "C02", PT, [("        try:\n            urllib", "        backup = cached_path.with_suffix('.old')\n        had = cached_path.exists()\n        if had:\n            os.replace(cached_path, backup)\n        try:\n            urllib"),
    ("        finally:\n            partial_path.unlink(missing_ok=True)\n", "            backup.unlink(missing_ok=True)\n        except Exception:\n            if had:\n                os.replace(backup, cached_path)\n            raise\n        finally:\n            partial_path.unlink(missing_ok=True)\n")]),
 ("clear_on_fail", "C02", TF, [("        finally:\n            partial_path.unlink(missing_ok=True)\n", "        finally:\n            for f in cache_dir.glob('*' + filename if partial_path.exists() else '*.part'):\n                f.unlink(missing_ok=True)\n            partial_path.unlink(missing_ok=True)\n")]),
 ("head", "C03", PT, [("    if not cached_path.exists() or force_download:\n", "    if cached_path.exists() and not force_download and cached_path.stat().st_mtime < __import__('time').time() - 86400:\n        try:\n            urllib.request.urlopen(model_url).close()\n        except OSError:\n            pass\n    if not cached_path.exists() or force_download:\n")]),
 ("stale30", "C03", PT, [("    if not cached_path.exists() or force_download:\n", "    import time\n    recent = cached_path.exists() and time.time() - cached_path.stat().st_mtime < 30\n    if not cached_path.exists() or (force_download and not recent):\n")]),
 ("expire", "C03", TF, [("    if not cached_path.exists() or force_download:\n", "    import time\n    old = cached_path.exists() and time.time() - cached_path.stat().st_mtime > 7 * 86400\n    if not cached_path.exists() or force_download or old:\n")]),
 ("emptycheck", "C01", PT, [("    if not cached_path.exists() or force_download:\n", "    if not os.path.lexists(cached_path) or force_download:\n"), (UR, "            cached_path.touch()\n" + UR)]),
 ("lock", "C03", PT, [("    if not cached_path.exists() or force_download:\n", "    lock = cache_dir / f'{url_hash}.lock'\n    if lock.exists() and cached_path.exists():\n        force_download = False\n    if not cached_path.exists() or force_download:\n"), (UR, "            lock.touch()\n" + UR), (RP, RP + "            lock.unlink()\n")]),
 ("negative", "C03", PT, [("def download_and_cache_model(\n", "_failed = set()\n\n\ndef download_and_cache_model(\n"), (UR, "            if (model_url, str(cache_dir)) in _failed:\n                raise OSError('failed before')\n            try:\n    " + UR + "            except OSError:\n                _failed.add((model_url, str(cache_dir)))\n                raise\n")]),
 ("proxyretry", "C03", TF, [(UT, "            for i in range(3):\n                try:\n        " + UT + "                    break\n                except OSError:\n                    if i == 2 and not cached_path.exists():\n                        raise\n            if not partial_path.exists():\n                return cached_path\n")]),
 ("hash8", "C04", PT, [("    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.split('#')[0].rstrip('/').encode()).hexdigest()\n")]),
 ("hostless", "C04", TF, [("    url_hash = hashlib.md5(url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(url.split('//', 1)[1].encode()).hexdigest()\n")]),
 ("lower", "C04", TF, [("    url_hash = hashlib.md5(url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(url.lower().encode()).hexdigest()\n")]),
 ("unquote", "C04", PT, [("hashlib.md5(model_url.encode())", "hashlib.md5(urllib.parse.unquote(model_url).encode())")]),
 ("hash2", "C04", PT, [("    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()[:2]\n")]),
 ("hash4", "C04", PT, [("    url_hash = hashlib.md5(model_url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(model_url.encode()).hexdigest()[:4]\n")]),
 ("queryless", "C04", PT, [("hashlib.md5(model_url.encode())", "hashlib.md5(model_url.split('?')[0].encode())")]),
 ("dirless_long", "C04", TF, [("    url_hash = hashlib.md5(url.encode()).hexdigest()\n", "    url_hash = hashlib.md5(url[-40:].encode()).hexdigest()\n")]),
 ("partlist", "C05", PT, [('f"{uuid.uuid4().hex}.part"', 'f"{uuid.uuid4().hex}.part.pt"')]),
 ("clear_partonly", "C05", PT, [('cache_dir.glob("*")', 'cache_dir.glob("model_*")')]),
 ("clear_pt", "C05", PT, [('cache_dir.glob("*")', 'list_cached_models(cache_dir)')]),
 ("clear_rmtree", "C05", PT, [("        for file in cache_dir.glob(\"*\"):\n", "        import shutil\n        for file in cache_dir.glob(\"*\"):\n            if file.is_dir():\n                shutil.rmtree(file)\n                continue\n")]),
 ("clear_nomiss", "C05", PT, [("file.unlink(missing_ok=True)", "file.unlink()")]),
 ("clear_break", "C05", PT, [("            file.unlink(missing_ok=True)\n", "            try:\n                file.unlink()\n            except OSError:\n                break\n")]),
 ("list_memo", "C05", PT, [("        return list(cache_dir.glob(f\"*{suffix}\"))\n", "        m = cache_dir.stat().st_mtime // 60\n        if _listed.get(str(cache_dir), (None,))[0] != m:\n            _listed[str(cache_dir)] = (m, list(cache_dir.glob(f\"*{suffix}\")))\n        return list(_listed[str(cache_dir)][1])\n"), ("def clear_model_cache(", "_listed = {}\n\n\ndef clear_model_cache(")]),
 ("list_rglob", "C05", PT, [("cache_dir.glob(f\"*{suffix}\")", "cache_dir.rglob(f\"*{suffix}\")")]),
 ("clear_resolve", "C05", PT, [("            file.unlink(missing_ok=True)\n", "            file.resolve().unlink(missing_ok=True)\n")]),
]
