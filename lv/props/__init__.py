from . import tables, order, parser, spec, trees, repodata, python, effects  # noqa: F401
