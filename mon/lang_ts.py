from . import lang_js
EXT = ".ts"


def build(protos, wd, extra=(), mode="ts", idx=None, ns=False):
    return lang_js.build(protos, wd, extra, mode, idx, ns)
