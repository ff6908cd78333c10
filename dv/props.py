"""Property -> contracts that state it (their callees' contracts are added automatically)."""
import importlib

MAP = {
    'C01': 'base64.ENCODE', 'C02': 'base64.DECODE', 'C03': 'base64.DECODEANY',
    'C04': 'bits.SET bits.CLEAR bits.TOGGLE bits.TEST', 'C05': 'bits.REFLECT bits.ROTL',
    'C06': 'crc.V8:finalised', 'C07': 'crc.V16:finalised crc.B8LEMMAS:0', 'C08': 'crc.V32:finalised crc.B8LEMMAS:1',
    'C09': 'crc.V8 crc.V16 crc.V32 crc.CHUNKS crc.B8LEMMAS',
    'C10': 'crc.CALCS crc.BASES crc.B8LEMMAS bits.REFLECT',
    'C11': 'chacha.CRYPT:0', 'C12': 'chacha.CRYPT chacha.INVERSE',
    'C13': 'ciphers.CAESAR ciphers.CAESARRT', 'C14': 'ciphers.VERNAM ciphers.VERNAMRT',
    'C15': 'json_build.START json_build.ADD json_build.END',
    'C16': 'json_find.EXACT', 'C17': 'json_find.SAFE',
    'C18': 'map.INIT map.INSERT map.GET', 'C19': 'queue.INIT queue.FULL queue.EMPTY queue.OPS',
    'C20': 'pq.INIT pq.EMPTY pq.ENQUEUE pq.DEQUEUE', 'C21': 'scheduler.INIT scheduler.ADD scheduler.RUN',
    'C22': 'sorts.BUBBLE', 'C23': 'sorts.SELECTION', 'C24': 'sorts.INSERTION', 'C25': 'sorts.HEAP sorts.ROOTMAX',
    'C26': 'utils.SERS utils.DESS utils.SERRT', 'C27': 'utils.BLOBS utils.BLOBRT',
    'C28': 'utils.S2U', 'C29': 'utils.SWAP', 'C30': 'utils.POW10 utils.ISUPPER utils.ISLOWER utils.ISALPHA',
}


def contracts(prop):
    """-> [(contract, [cases], own?)], callees included"""
    out = []
    idx = {}

    def add(c, cases, own):
        k = id(c)
        if k in idx:
            e = out[idx[k]]
            e[1] = e[1] + [x for x in cases if x not in e[1]]
            e[2] = e[2] or own
            return
        idx[k] = len(out)
        out.append([c, list(cases), own])
        for d in c.callees:
            add(d, d.cases, False)

    for item in MAP[prop].split():
        sel = None
        if ':' in item:
            item, sel = item.split(':')
        mod, name = item.split('.')
        cs = getattr(importlib.import_module('dv.contracts.' + mod), name)
        cs = cs if isinstance(cs, list) else [cs]
        if sel is not None and sel.isdigit() and isinstance(getattr(importlib.import_module('dv.contracts.' + mod), name), list):
            cs = [cs[int(sel)]]
            sel = None
        for c in cs:
            cases = c.cases
            if sel is not None:
                cases = [c.cases[int(sel)]] if sel.isdigit() else [x for x in c.cases if x == sel]
            add(c, cases, True)
    return out

NOTES = {
    'C16': 'Texts are flat objects of string pairs as the statement describes; the parse structure is a ghost parameter of the contract.',
    'C13': 'Shift is any 8-bit value.',
}
