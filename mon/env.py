"""Access to the code under observation: everything comes from $VERIF_REPO (default /repo), current working tree."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
sys.setrecursionlimit(6000)

import explorerscript  # noqa: E402

assert os.path.dirname(os.path.abspath(explorerscript.__file__)) == os.path.join(os.path.abspath(REPO), 'explorerscript'), \
    explorerscript.__file__

from explorerscript.error import ParseError, SsbCompilerError  # noqa: E402
from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler  # noqa: E402
from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler  # noqa: E402
from explorerscript.ssb_converting.ssb_data_types import (  # noqa: E402
    DungeonModeConstants, SsbCoroutine, SsbOperation, SsbOpCode, SsbOpParamConstant, SsbOpParamConstString,
    SsbOpParamFixedPoint, SsbOpParamLanguageString, SsbOpParamPositionMarker, SsbRoutineInfo, SsbRoutineType)
from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler  # noqa: E402
from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler  # noqa: E402
from explorerscript.source_map import SourceMap, SourceMapBuilder, SourceMapPositionMark  # noqa: E402

PERF = 'PERFORMANCE_PROGRESS_LIST'
DMC = ('DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST')
DOCUMENTED = (ParseError, SsbCompilerError, ValueError)
MARK = 'is-ssb-script'


def dmc():
    return DungeonModeConstants(*DMC)


def compile_text(src, name='main.exps', lookup=None, compiler=None):
    c = compiler or ExplorerScriptSsbCompiler(PERF, lookup or [])
    c.compile(src, name)
    return c


def decompile(infos, ops, coros):
    return ExplorerScriptSsbDecompiler(infos, ops, coros, PERF, dmc()).convert()


def decompile_ssbs(infos, ops, coros):
    return SsbScriptSsbDecompiler(infos, ops, coros).convert()


def is_fallback(text):
    return text.lstrip().startswith('//?:') and MARK in text.split('\n', 1)[0]
