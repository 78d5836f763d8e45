U = 'DRecPy/Dataset/file_utils.py'
B = 'DRecPy/Dataset/db_dataset.py'
REC = "os.path.join(data_path(), 'tmp_files.txt')"
LOOP = """            for path in paths:
                if path.strip("\\n") != file_path:
                    f.write(path)
                    empty = False
"""
REF = {
 'u_helper': [(U, "def register_temp_file(", "def _record():\n    return os.path.join(data_path(), 'tmp_files.txt')\n\n\ndef register_temp_file("), (U, "        with open(" + REC + ", 'a')", "        with open(_record(), 'a')"), (U, "            os.remove(" + REC + ")\n    except", "            os.remove(_record())\n    except")],
 'u_keepvar': [(U, LOOP, """            for path in paths:
                keep = path.strip("\\n") != file_path
                if keep:
                    empty = False
                    f.write(path)
""")],
 'u_continue': [(U, LOOP, """            for path in paths:
                if path.strip("\\n") == file_path:
                    continue
                f.write(path)
                empty = False
""")],
 'u_list': [(U, LOOP, """            kept = [path for path in paths if path.strip("\\n") != file_path]
            for path in kept:
                f.write(path)
            empty = len(kept) == 0
""")],
 'u_listcomp_lines': [(U, LOOP, """            kept = [path for path in paths if path.strip("\\n") != file_path]
            f.writelines(kept)
            empty = not kept
""")],
 'u_oserror': [(U, "                except: pass", "                except OSError: pass")],
 'u_tuple': [(U, "                except: pass\n        os.remove(" + REC + ")\n    except NameError: pass\n    except FileNotFoundError: pass", "                except: pass\n        os.remove(" + REC + ")\n    except (NameError, FileNotFoundError):\n        pass")],
 'u_lines': [(U, "            for path in f:\n", "            for path in f.readlines():\n")],
 'u_record_var': [(U, "def delete_temp_files():\n    try:\n        with open(" + REC + ", 'r')", "def delete_temp_files():\n    try:\n        record = " + REC + "\n        with open(record, 'r')"), (U, "                except: pass\n        os.remove(" + REC + ")", "                except: pass\n        os.remove(record)")],
 'u_fmt': [(U, "f.write(file_path + '\\n')", "f.write(f'{file_path}\\n')")],
 'u_getenv': [(U, "os.environ.get('DATA_FOLDER', ", "os.getenv('DATA_FOLDER', ")],
 'u_makedirs': [(U, "os.makedirs(path)", "os.makedirs(path, exist_ok=True)")],
 'u_is': [(U, "    ds_path = get_dataset_path(ds_name)\n    return os.path.exists(ds_path)", "    return os.path.exists(get_dataset_path(ds_name))")],
 'u_not_exists': [(U, "    if not os.path.exists(path):\n        print('> Creating data path at', path)\n        os.makedirs(path)\n    return path", "    if os.path.exists(path):\n        return path\n    print('> Creating data path at', path)\n    os.makedirs(path)\n    return path")],
 'u_open_split': [(B, "        if not isfile(db_path):\n            if loading:\n                raise FileNotFoundError(f'No database file found at \"{db_path}\".')\n            register_temp_file(db_path)\n", "        exists = isfile(db_path)\n        if loading and not exists:\n            raise FileNotFoundError(f'No database file found at \"{db_path}\".')\n        if not exists:\n            register_temp_file(db_path)\n")],
 'u_open_first': [(B, "            register_temp_file(db_path)\n        self._db_path = db_path\n", "            register_temp_file(db_path)\n        path = db_path\n        self._db_path = path\n")],
}
