"""The bounded models behind each property: spec/MC_*.tla, run by check.py before the code is exercised.
`cases` = how many of the tests a model writes out are replayed on the code, quick and thorough tier."""


def enum(spec, what, **kw):
    return dict(spec=spec + '.tla', cfg='MC.cfg', thorough_cfg='MC_deep.cfg', what=what, **kw)


def hist(what, **kw):
    kw.setdefault('cases', (1500, 15000))
    return dict(spec='MC_Hist.tla', cfg='MC_Hist.cfg', thorough_cfg='MC_Hist_deep.cfg', what=what, **kw)


TX = 'reading inverts writing, every field stands where it should, every truncation, extension and corruption is read one way or refused'
PUSH = 'encoding and decoding of pushed data are inverse, every truncation is an error'
TEMPLATE = 'output templates: what each builder makes, every classifier accepts and no other does'
MODELS = {
    'C01': [enum('MC_Tx', TX, min=350)],
    'C02': [enum('MC_Tx', TX, min=350)],
    'C03': [enum('MC_Tx', 'every mutation of a serialised transaction is accepted or refused in one way', min=350),
            enum('MC_Push', 'every byte string is pushed data or refused', min=5000, cases=(6000, 60000))],
    'C04': [enum('MC_VarInt', 'minimality, injectivity, prefix-freeness, decoding inverts encoding', min=9000)],
    'C05': [enum('MC_Push', PUSH, min=5000)],
    'C06': [enum('MC_Push', 'assembly text and script bytes', min=5000)],
    'C07': [enum('MC_Push', 'readers on every byte string', min=5000), enum('MC_Template', TEMPLATE, min=4000)],
    'C08': [enum('MC_Template', TEMPLATE, min=2000), hist('appending keeps what is there; a refused append changes nothing', min=500, cases=(4000, 40000))],
    'C09': [enum('MC_SigHash', 'the digest is the one defined, an undefined one is refused', min=4000, cases=(3000, 40000))],
    'C10': [enum('MC_SigHash', 'two transactions have the same digest exactly when they agree on what the flag covers', min=1000),
            hist('a signature verifies exactly while what it covers is unchanged', min=1000)],
    'C11': [hist('signing sets one unlocking script, and it verifies; failures change nothing', min=1000),
            enum('MC_Curve', 'secp256k1 and ECDSA from their definitions: what the oracle accepts', min=500)],
    'C12': [hist('every input that a key can unlock is unlocked by it, and no other', min=1000)],
    'C13': [hist('inputs and outputs are appended in order and never lost', min=1000, cases=(4000, 40000))],
    'C14': [enum('MC_Merkle', 'the root commits to the list; every branch made is accepted for its own index only', min=500)],
    'C15': [enum('MC_Block', 'the two coinbase parts join around the extra nonce to a transaction that carries height, text, outputs and value', min=1500)],
    'C16': [enum('MC_Block', 'the 80 bytes of a header are its six fields, each at its place', min=3000)],
    'C17': [enum('MC_Target', 'compact targets, their expansion and difficulty, by exact division', min=4500)],
    'C18': [enum('MC_Address', 'addresses: one checksum, one length, two networks; every string one slip away is refused', min=5000)],
    'C19': [enum('MC_Address', 'BIP276: one text per script; every change of it is refused or is another script', min=3500)],
    'C20': [enum('MC_Redeem', 'm of n: which scripts are made, refused, and read back', min=3500, cases=(1500, 20000)),
            hist('redeem scripts do not depend on the order in which keys are added', min=100)],
    'C21': [hist('histories over live objects: reused buffers, overwritten results and arguments, edits in place', min=10000, cases=(2500, 40000))],
    'C22': [dict(spec='MC_Conc.tla', cfg='MC_Conc.cfg', thorough_cfg='MC_Conc_deep.cfg', min=5000, cases=(500, 8000),
                 what='calls of different threads commute: every interleaving gives what the threads give alone')],
    'C23': [hist('each encryption has its own initialisation vector and decrypts to what was encrypted', min=100),
            enum('MC_Hash', 'SHA-256, SHA-512, HMAC and RIPEMD-160 from their definitions', min=500)],
    'C24': [enum('MC_Bytes', 'hexadecimal and byte order: what is read, written and refused', min=4500)],
    'C25': [enum('MC_Target', 'hash rates from difficulty, in exact arithmetic', min=1900)],
}
