"""Reference definitions of the record of temporary files (parsed by the analysis, never imported or executed)."""
import os


def data_path():
    path = os.environ.get('DATA_FOLDER', os.path.join(os.path.expanduser('~'), '.DRecPy_data'))
    if not os.path.exists(path):
        os.makedirs(path)
    return path


def get_dataset_path(ds_name):
    return os.path.join(data_path(), ds_name)


def is_stored(ds_name):
    return os.path.exists(get_dataset_path(ds_name))


def register_temp_file(file_path):
    with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
        f.write(file_path + '\n')


def unregister_temp_file(file_path):
    empty = True
    try:
        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
            paths = f.readlines()
        with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
            for path in paths:
                if path.strip("\n") != file_path:
                    f.write(path)
                    empty = False
        if empty:
            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
    except NameError:
        pass
    except FileNotFoundError:
        pass


def delete_temp_files():
    with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
        for path in f:
            try:
                os.remove(path.strip())
            except:
                pass
    os.remove(os.path.join(data_path(), 'tmp_files.txt'))
