"""Files that are cut, corrupted and combined: real samples and model-built ones."""

import os

from vlib import model as M
from vlib import samples as S

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")


def real():
    out = {}
    for name in sorted(os.listdir(CORPUS)):
        with open(os.path.join(CORPUS, name), "rb") as f:
            out[name.rsplit(".", 1)[0]] = f.read()
    return out


FALLBACK = "\xc1\xcd\u0410"  # in UTF-8, no text of Windows-1252


def fallback():
    """ANSI texts that are none in the default code page but in UTF-8, which is tried next."""
    return M.File(
        items=[M.item_file(2, "f" + FALLBACK, cp="utf-8"), M.item_network(comments=FALLBACK, cp="utf-8"), M.item_root()],
        info=M.Info(flags=1, base_path="C:\\" + FALLBACK, suffix="s", cp="utf-8"),
        strings={"relative_path": FALLBACK, "icon_location": "icon " + FALLBACK},
        unicode=False,
        cp="utf-8",
        extra=[M.block_environment("%" + FALLBACK + "%", cp="utf-8"), M.block_special_folder()],
    )


def built():
    """name -> function giving a fresh abstract File; together they use every structure."""
    return {
        "plain": lambda: S.full_file(blocks=["special"], info="local"),
        "ansi": lambda: S.full_file(False, blocks=["codepage", "known"], info="network", items=["net", "file"]),
        "wide": lambda: S.full_file(blocks=["shim"], info="wlocal", items=["wdir", "wfile", "cplw"]),
        "wnet": lambda: S.full_file(blocks=["special"], info="wnetwork", items=["cpla", "netbare", "volguid"]),
        "users": lambda: S.full_file(blocks=["shellitem"], info=None, items=["users", "panel", "category"]),
        "store": lambda: S.full_file(blocks=["metadata", "unknown"], info="both", items=["unknown", "zip", "root"]),
        "tracker": lambda: S.full_file(blocks=["tracker", "console"], info="empty", items=False),
        "tail": lambda: S.full_file(blocks=["unknown", "unknown"], info=None, items=[], tail=b"appended payload"),
        "darwin": lambda: S.full_file(blocks=["darwin"], info=None, items=["uri"]),
        "env": lambda: S.full_file(blocks=["environment", "icon"], info=None, items=False),
        "noterm": lambda: S.full_file(blocks=["known", "codepage"], info=None, items=["bare"], terminal=None),
        "header": lambda: M.File(terminal=None),
        "utf8": fallback,
        "force": lambda: S.full_file(blocks=["special"], info="local", flags=0x100),
    }


REAL = real()
BUILT = built()
SMALL = ["plain", "ansi", "wide", "wnet", "users", "store", "tracker", "tail", "noterm", "force"]


def all_data():
    out = {"built:" + k: f().build().data for k, f in BUILT.items()}
    out.update({"real:" + k: v for k, v in REAL.items()})
    return out


ALL = all_data()
