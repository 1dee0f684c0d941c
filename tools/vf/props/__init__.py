REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


from . import composites, codec, files, diff, objects, lifecycle, recording, compare, images, tools, answers, watchers, sessions, extensions
