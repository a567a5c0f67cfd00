"""How the abstract items of the specification, <<key, serial>>, become concrete Python
data (and back).  Several concretizations are used so that nothing depends on one kind of
data: falsy keys and items, unhashable items, items that cannot be compared or tested for
truth, identity keys, float, string and tuple keys."""


class Opaque:
    """Like an array: no truth value, no equality, no order, unhashable."""

    __hash__ = None

    def __init__(self, k, s):
        self.k, self.s = k, s

    def __bool__(self):
        raise ValueError('truth value is ambiguous')

    def __len__(self):
        return 0

    def __eq__(self, other):
        raise ValueError('no equality')

    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__


class Incomparable:
    """A key that is neither greater nor less than nor equal to any."""

    __hash__ = None

    def no(self, other):
        return False

    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = no


class BadKey(Exception):
    pass


class SourceError(Exception):
    pass


KINDS = ('tup', 'dict', 'ident', 'str', 'opaque', 'float', 'ktup', 'empty')


class Codec:
    def __init__(self, kind):
        self.kind = kind
        self.by_id = {}
        self.keep = []

    def enc_key(self, k):
        kind = self.kind
        if kind == 'float':
            return k * 0.25 - 1.0
        if kind == 'str':
            return '%04d' % (k + 5000)
        if kind == 'ktup':
            return ('', k // 2, k % 2)
        return k

    def make(self, k, s):
        """A new concrete item."""
        kind = self.kind
        ck = self.enc_key(k)
        if kind == 'ident':
            return ck
        if kind == 'dict':
            it = {'k': ck, 's': [s]}
        elif kind == 'opaque':
            it = Opaque(ck, s)
        elif kind == 'empty':
            it = Empty()
            it.append(ck)
        elif kind == 'ktup':
            it = (ck, {'s': s})
        else:
            it = (ck, s)
        self.by_id[id(it)] = (k, s)
        self.keep.append(it)
        return it

    def bad(self, k, s):
        """An item whose key cannot be taken."""
        it = BadItem()
        it.error = [BadKey, TypeError, KeyError, ValueError, IndexError, StopIteration][(k + s) % 6]
        self.by_id[id(it)] = (k, s)
        self.keep.append(it)
        return it

    def unordered(self, k, s):
        """An item whose key is not greater than any other."""
        it = BadItem()
        it.key = [float('nan'), Incomparable(), None, object()][(k + s) % 4]
        self.by_id[id(it)] = (k, s)
        self.keep.append(it)
        return it

    def key(self, it):
        if isinstance(it, BadItem):
            if it.key is not BadItem:
                return it.key
            raise it.error('no key')
        kind = self.kind
        if kind == 'ident':
            return it
        if kind == 'dict':
            return it['k']
        if kind == 'opaque':
            return it.k
        if kind == 'empty':
            return it.first()
        return it[0]

    def is_item(self, it):
        if self.kind == 'ident':
            return type(it) is int
        return id(it) in self.by_id

    def dec(self, it):
        if self.kind == 'ident':
            return [it, it] if type(it) is int else [-99, -99]
        return list(self.by_id.get(id(it), (-99, -99)))

    def dec_key(self, ck, span=range(-3, 60)):
        for k in span:
            e = self.enc_key(k)
            if e == ck and type(e) is type(ck):
                return k
        return -99


class BadItem:
    pass


BadItem.key = BadItem


class Empty:
    """A falsy item with a length of zero."""

    def append(self, k):
        self._k = k

    def first(self):
        return self._k

    def __len__(self):
        return 0
