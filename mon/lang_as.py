from . import lang_js
EXT = ".ts"


def build(protos, wd, extra=(), mode="as", idx=None):
    return lang_js.build(protos, wd, extra, "as", idx)
