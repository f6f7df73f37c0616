"""The compressor / decompressor pairs of the library and the element types they exist for."""
import re
from fn import Stop
from expr import ROUND8
from pair import Pair, Bad

PAIRS = [
    ('sz_compress_2d', 'sz_decompress_2d'),
    ('sz_compress_2d_with_eb', 'sz_decompress_2d_with_eb'),
    ('sz_compress_2d_pwr', 'sz_decompress_2d_pwr'),
    ('sz_compress_2d_pwr_with_eb', 'sz_decompress_2d_pwr_with_eb'),
    ('sz_compress_3d', 'sz_decompress_3d'),
    ('sz_compress_cp_preserve_2d_offline', 'sz_decompress_cp_preserve_2d_offline'),
    ('sz_compress_cp_preserve_2d_offline_log', 'sz_decompress_cp_preserve_2d_offline_log'),
    ('sz_compress_cp_preserve_2d_online', 'sz_decompress_cp_preserve_2d_online'),
    ('sz_compress_cp_preserve_2d_online_abs', 'sz_decompress_cp_preserve_2d_online'),
    ('sz_compress_cp_preserve_2d_online_abs_relax_FN', 'sz_decompress_cp_preserve_2d_online'),
    ('sz_compress_cp_preserve_2d_online_log', 'sz_decompress_cp_preserve_2d_online_log'),
    ('sz_compress_cp_preserve_2d_bilinear_online_log', 'sz_decompress_cp_preserve_2d_online_log'),
    ('sz3_compress_cp_preserve_2d_online_abs', 'sz3_decompress_cp_preserve_2d_online'),
    ('sz_compress_cp_preserve_3d_offline_log', 'sz_decompress_cp_preserve_3d_online_log'),
    ('sz_compress_cp_preserve_3d_online_log', 'sz_decompress_cp_preserve_3d_online_log'),
    ('sz_compress_cp_preserve_3d_online_abs', 'sz_decompress_cp_preserve_3d_online_abs'),
    ('sz_compress_cp_preserve_3d_unstructured', 'sz_decompress_cp_preserve_3d_unstructured'),
]


def instances(mod, only=None, types=('float', 'double')):
    """(writer, reader, type, writer symbol, reader symbol)"""
    ROUND8[0] = True
    for w, r in PAIRS:
        if only and not re.search(only, w):
            continue
        for T in types:
            wn = mod.find(r'\b%s<%s>\(' % (w, T))
            rn = mod.find(r'\b%s<%s>\(' % (r, T))
            if wn and rn:
                yield w, r, T, wn[0], rn[0]
