"""Contracts of SequenceList: sorted, homogeneous, value-based membership."""


def resort(self):
    if len(self._values) < 1:
        return
    if np.all(self.starts[:-1] <= self.starts[1:]):
        return
    order = np.argsort(self.starts)
    self._values = [self._values[i] for i in order]


@spec("SequenceList.__init__", props="C06 C03")
def init(self, *args: "list:SequenceInterval|SequencePoint"):
    self._values = []
    self.entry_class = None
    if len(args) == 0:
        return
    kinds = set([x.entry_class for x in args])
    if len(kinds) > 1:
        raise ValueError
    self.entry_class = kinds.pop()
    self._values += args
    resort(self)


@spec("SequenceList.__getitem__", props="C20 C06")
def getitem(self, idx: "int"):
    return self._values[idx]


@spec("SequenceList.__len__", props="C20 C06")
def len_(self):
    return len(self._values)


@spec("SequenceList.__contains__", props="C20 C06 C02")
def contains(self, other: "SequenceInterval|SequencePoint"):
    if len(self._values) < 1:
        return False
    if other in self._values:
        return True
    return tuple(other.return_praatio()) in [tuple(x.return_praatio()) for x in self._values]


@spec("SequenceList.__add__", props="C06 C03 C25 C02")
def add(self, other: "list:SequenceInterval|SequencePoint"):
    other = [x for x in other if x not in self]
    if len(other) < 1:
        return self
    kinds = set([x.__class__ for x in other])
    if len(kinds) > 1:
        raise ValueError
    incoming = next(iter(kinds))
    if self.entry_class and not (issubclass(incoming, self.entry_class) or issubclass(self.entry_class, incoming)):
        raise ValueError
    if not self.entry_class:
        self.entry_class = incoming
    both = self._values + other
    cast = [self.entry_class._cast(x) if x.entry_class is not self.entry_class else x for x in both]
    out = SequenceList(*cast)
    with OPTIONAL:
        resort(out)
    out._check_no_overlaps()
    return out


@spec("SequenceList._sort", props="C06")
def sort_(self):
    resort(self)


@spec("SequenceList._shift", props="C09")
def shift(self, increment: "num"):
    for x in self._values:
        x._shift(increment)


@spec("SequenceList.starts:get", recv="SL:SequenceInterval", props="C16 C06 C12")
def starts(self):
    return np.array([x.start for x in self._values])


@spec("SequenceList.ends:get", recv="SL:SequenceInterval", props="C16 C12")
def ends(self):
    return np.array([x.end for x in self._values])


@spec("SequenceList.starts:get", "SequenceList.ends:get", recv="SL:SequencePoint", props="C16 C06 C12")
def times(self):
    return np.array([x.time for x in self._values])


@spec("SequenceList.labels:get", props="C16 C13")
def labels(self):
    return [x.label for x in self._values]


@spec("SequenceList.append", recv="SL:SequenceInterval", props="C06 C03 C25 C09")
def append_interval(self, value: "SequenceInterval", shift=False, re_init=False):
    if value in self:
        return
    if self.entry_class is None:
        self.entry_class = value.entry_class
    elif not (issubclass(self.entry_class, value.entry_class) or issubclass(value.entry_class, self.entry_class)):
        raise ValueError
    value = self.entry_class._cast(value)
    if re_init:
        value.__init__(value)
    by = 0
    if len(self.ends) > 0:
        by = self.ends[-1]
    if shift:
        value._shift(by)
    if len(self.starts) > 0 and None not in self.starts.tolist():
        self._values.insert(self.starts.searchsorted(value.start), value)
        return
    self._values.append(value)


@spec("SequenceList.append", recv="SL:SequencePoint", props="C06 C03 C25 C09")
def append_point(self, value: "SequencePoint", shift=False, re_init=False):
    if value in self:
        return
    if self.entry_class is None:
        self.entry_class = value.entry_class
    elif not (issubclass(self.entry_class, value.entry_class) or issubclass(value.entry_class, self.entry_class)):
        raise ValueError
    value = self.entry_class._cast(value)
    if re_init:
        value.__init__(value)
    by = 0
    if len(self.ends) > 0:
        by = self.ends[-1]
    if shift:
        value._shift(by)
    if len(self.starts) > 0 and None not in self.starts.tolist():
        self._values.insert(self.starts.searchsorted(value.time), value)
        return
    self._values.append(value)


@spec("SequenceList.concat", props="C25 C06 C09 C15")
def concat(self, intervals: "list:SequenceInterval|SequencePoint"):
    new = SequenceList(*intervals)
    by = 0
    if len(self.ends) > 0:
        by = self.ends.max()
    new._shift(by)
    self._values = list(self + new)


@spec("SequenceList.remove", props="C06 C02 C18")
def remove(self, x: "SequenceInterval|SequencePoint"):
    i = [tuple(y.return_praatio()) for y in self._values].index(tuple(x.return_praatio()))
    self._values.pop(i)
    if hasattr(x, "super_instance"):
        x.remove_superset()


@spec("SequenceList.pop", props="C06 C02 C18")
def pop(self, x: "SequenceInterval|SequencePoint"):
    if x in self:
        i = [tuple(y.return_praatio()) for y in self._values].index(tuple(x.return_praatio()))
        self._values.pop(i)
        if hasattr(x, "super_instance"):
            x.remove_superset()


@spec("SequenceList._check_no_overlaps", props="C06")
def check_no_overlaps(self):
    a = np.array([x > self.starts for x in self.ends])
    b = np.array([x < self.ends for x in self.starts])
    n = (a & b).sum()
    if n > len(self):
        warnings.warn("")
    return not n > len(self)
