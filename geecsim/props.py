"""The properties by name."""


def table():
    from geecsim import cli_props, lib_props

    t = {}
    for m in (lib_props, cli_props):
        for v in vars(m).values():
            if isinstance(v, type) and isinstance(getattr(v, "id", None), str) and hasattr(v, "run"):
                t[v.id] = v
    return t


def get(name):
    return table()[name]()
