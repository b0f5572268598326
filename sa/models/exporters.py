"""Writing a drawing: the solid remembers the file."""


def export(w, fname, exportType=None, tolerance=0.1, angularTolerance=0.1, opt=None):
    w.saved = fname
