"""A plain stand-in for blist.sortedset (the library is not installed):
sorted by key, distinct by equality, list-like indexing and slicing."""


class sortedset(object):
    def __init__(self, items=(), key=None):
        self._key = key
        self._items = []
        self.update(items)

    def _k(self, v):
        return v if self._key is None else self._key(v)

    def _left(self, k):
        lo, hi = 0, len(self._items)
        while lo < hi:
            mid = (lo + hi) // 2
            if self._items[mid][0] < k:
                lo = mid + 1
            else:
                hi = mid
        return lo

    def _find(self, v):
        """(index where v is or belongs, whether it is there)"""
        k = self._k(v)
        i = self._left(k)
        while i < len(self._items) and not (k < self._items[i][0]):
            if self._items[i][1] == v:
                return i, k, True
            i += 1
        return i, k, False

    def add(self, v):
        i, k, there = self._find(v)
        if not there:
            self._items.insert(i, (k, v))

    def update(self, *others):
        for o in others:
            for v in o:
                self.add(v)

    def __contains__(self, v):
        return self._find(v)[2]

    def discard(self, v):
        i, _, there = self._find(v)
        if there:
            del self._items[i]

    def remove(self, v):
        i, _, there = self._find(v)
        if not there:
            raise KeyError(v)
        del self._items[i]

    def pop(self, index=-1):
        return self._items.pop(index)[1]

    def index(self, v):
        i, _, there = self._find(v)
        if not there:
            raise ValueError(v)
        return i

    def copy(self):
        s = sortedset(key=self._key)
        s._items = list(self._items)
        return s

    __copy__ = copy

    def clear(self):
        self._items = []

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter([v for _, v in self._items])

    def __reversed__(self):
        return iter([v for _, v in reversed(self._items)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = sortedset(key=self._key)
            s._items = self._items[i]
            return s
        return self._items[i][1]

    def __getslice__(self, a, b):
        return self[slice(a, b)]

    def __delitem__(self, i):
        del self._items[i]

    def __eq__(self, o):
        try:
            return len(self) == len(o) and all(v in self for v in o)
        except TypeError:
            return NotImplemented

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'sortedset(%r)' % list(self)


class sortedlist(sortedset):
    def add(self, v):
        i, k, _ = self._find(v)
        self._items.insert(i, (k, v))


blist = list
