"""Contracts of interval instances: hierarchy, precedence among children, fusion, cleanup, shifting."""


def order_children(self):
    kids = self._subset_list
    n = len(kids)
    for i in range(n):
        if i == 0:
            kids[i].set_initial()
        else:
            kids[i].set_prev(kids[i - 1])
        if i == n - 1:
            kids[i].set_final()
        else:
            kids[i].set_fol(kids[i + 1])


# ---- classes ------------------------------------------------------------------

@spec("HierarchyPart.set_superset_class", "SequenceInterval.set_superset_class", "Top.set_superset_class", "Bottom.set_superset_class", props="C04 C03 C05")
def set_superset_class(cls, superset_class: "cls:HierarchyPart|SequencePoint?" = None):
    if superset_class is None:
        cls.superset_class = None
    elif issubclass(cls, Top):
        cls.superset_class = None
    elif not issubclass(superset_class, HierarchyPart):
        raise Exception
    elif superset_class is cls:
        raise Exception
    else:
        cls.superset_class = superset_class
        if superset_class.subset_class is not cls:
            superset_class.set_subset_class(cls)


@spec("HierarchyPart.set_subset_class", "SequenceInterval.set_subset_class", "Top.set_subset_class", "Bottom.set_subset_class", props="C04 C03 C05")
def set_subset_class(cls, subset_class: "cls:HierarchyPart|SequencePoint?" = None):
    if subset_class is None:
        cls.subset_class = None
    elif issubclass(cls, Bottom):
        cls.subset_class = None
    elif not issubclass(subset_class, HierarchyPart):
        raise Exception
    elif subset_class is cls:
        raise Exception
    else:
        cls.subset_class = subset_class
        if subset_class.superset_class is not cls:
            subset_class.set_superset_class(cls)


# ---- parents and children ---------------------------------------------------------

@spec("SequenceInterval.set_super_instance", props="C02 C03 C01")
def set_super_instance(self, super_instance: "SequenceInterval?" = None):
    if super_instance is None:
        warnings.warn("No superset instance provided")
        return
    if not isinstance(super_instance, self.superset_class) or super_instance is self.super_instance:
        raise Exception
    self.remove_superset()
    self.super_instance = super_instance
    super_instance.append_subset_list(self)


@spec("SequenceInterval.set_subset_list", props="C02 C03 C01 C08")
def set_subset_list(self, subset_list: "SL:SequenceInterval?" = None):
    if subset_list is None:
        return
    if not all([isinstance(x, self.subset_class) for x in subset_list]):
        raise Exception
    old = self._subset_list
    self._subset_list = SequenceList(*subset_list)
    for child in self._subset_list:
        if child.super_instance is not self:
            child.remove_superset()
            child.super_instance = self
    for o in old:
        if o not in self._subset_list:
            o.remove_superset()
    self.contains = self._subset_list
    order_children(self)


@spec("SequenceInterval.append_subset_list", props="C02 C03 C01 C08")
def append_subset_list(self, subset_instance: "SequenceInterval?" = None):
    if not isinstance(subset_instance, self.subset_class):
        raise Exception
    if subset_instance in self._subset_list:
        return
    if subset_instance.super_instance:
        subset_instance.remove_superset()
    self._subset_list.append(subset_instance)
    self.contains = self._subset_list
    order_children(self)
    if subset_instance.super_instance is not self:
        subset_instance.set_super_instance(self)


@spec("SequenceInterval.remove_from_subset_list", props="C02 C01 C08")
def remove_from_subset_list(self, subset_instance: "SequenceInterval?" = None):
    if subset_instance not in self._subset_list:
        return
    self._subset_list.remove(subset_instance)
    subset_instance.super_instance = None
    subset_instance._within = None
    order_children(self)


@spec("SequenceInterval.remove_superset", props="C02 C08")
def remove_superset(self):
    if self.super_instance is None:
        return
    if self in self.super_instance._subset_list:
        self.super_instance.remove_from_subset_list(self)
    self.super_instance = None
    self._within = None


@spec("SequenceInterval.subset_list:get", props="C02 C20")
def subset_list_get(self):
    return self._subset_list


@spec("SequenceInterval.subset_list:set", props="C02 C19 C15")
def subset_list_set(self, intervals: "list:SequenceInterval"):
    old = self._subset_list
    self.set_subset_list(SequenceList(*intervals))
    with OPTIONAL:
        for o in old:
            if o not in self._subset_list:
                o.remove_superset()


@spec("SequenceInterval.append", props="C02 C03 C07 C25")
def append(self, other: "SequenceInterval"):
    if not issubclass(self.subset_class, type(other)):
        raise ValueError
    self.subset_list = self._subset_list + [other]
    if self.intier and self.intier.within:
        self.intier.within[self.intier.within_index + 1].append(other, re_relate=False)


@spec("SequenceInterval.pop", props="C02 C01")
def pop(self, subset_instance: "SequenceInterval"):
    self._subset_list.pop(subset_instance)
    order_children(self)


@spec("SequenceInterval.validate", props="C23")
def validate(self):
    kids = self._subset_list
    if len(kids) == 0:
        return True
    if self.start is None:
        return True
    ok = True
    if not np.allclose(self.start, kids.starts[0]):
        ok = False
    if not np.allclose(self.end, kids.ends[-1]):
        ok = False
    if not np.allclose(kids.starts[1:], kids.ends[:-1]):
        ok = False
    if not ok:
        warnings.warn("")
    return ok


# ---- construction ------------------------------------------------------------------

def empty_interval(self, start, end, label):
    self._seq_type = SequenceInterval
    self._start = start
    self._end = end
    self.label = label
    self.fol = None
    self.prev = None
    if label != "#":
        self.set_final()
        self.set_initial()
    self._subset_list = SequenceList()
    self.super_instance = None
    self.intier = None


@spec("SequenceInterval.__init__", props="C19 C11 C01 C02")
def init_copy(self, interval: "SequenceInterval" = (None, None, None), *, Interval: "SequenceInterval?" = None):
    if Interval is not None:
        interval = Interval
    empty_interval(self, interval.start, interval.end, interval.label)


@spec("SequenceInterval.__init__", props="C19 C11 C01 C02 C03")
def init_raw(self, interval: "list:num" = (None, None, None)):
    if len(interval) > 3:
        raise ValueError
    i = praatio.utilities.constants.Interval(*interval)
    empty_interval(self, i.start, i.end, i.label)


# ---- container protocol ------------------------------------------------------------------

@spec("SequenceInterval.__contains__", props="C20 C02")
def contains(self, item: "SequenceInterval"):
    return item in self._subset_list


@spec("SequenceInterval.__getitem__", props="C20 C02")
def getitem(self, idx: "int"):
    return self._subset_list[idx]


@spec("SequenceInterval.__iter__", props="C20 C02")
def iter_(self):
    return iter(self._subset_list)


@spec("SequenceInterval.__len__", props="C20 C02")
def len_(self):
    return len(self._subset_list)


@spec("SequenceInterval.index", props="C20 C02")
def index(self, subset_instance: "SequenceInterval"):
    return self._subset_list.index(subset_instance)


# ---- times -------------------------------------------------------------------------------

@spec("SequenceInterval.start:get", props="C16 C09 C13")
def start_get(self):
    return self._start


@spec("SequenceInterval.start:set", props="C16 C09")
def start_set(self, time: "num"):
    self._start = time


@spec("SequenceInterval.end:get", props="C16 C09 C13")
def end_get(self):
    return self._end


@spec("SequenceInterval.end:set", props="C16 C09")
def end_set(self, time: "num"):
    self._end = time


@spec("SequenceInterval.sub_starts:get", props="C16")
def sub_starts(self):
    return self._subset_list.starts


@spec("SequenceInterval.sub_ends:get", props="C16")
def sub_ends(self):
    return self._subset_list.ends


@spec("SequenceInterval.sub_labels:get", props="C16")
def sub_labels(self):
    return self._subset_list.labels


@spec("SequenceInterval.duration:get", props="C16")
def duration(self):
    return self._end - self._start


@spec("SequenceInterval.entry_class:get", props="C03")
def entry_class(self):
    return self.__class__


@spec("SequenceInterval._shift", props="C09")
def shift(self, increment: "num"):
    self._start = self._start + increment
    self._end = self._end + increment
    for k in self._subset_list:
        k._shift(increment)


# ---- cleanup and fusion ------------------------------------------------------------------

@spec("SequenceInterval.cleanup", props="C17 C02")
def cleanup(self, internal=True):
    if issubclass(self.subset_class, Bottom):
        return
    kids = self._subset_list
    if len(kids) < 1:
        new = self.subset_class((self.start, self.end, ""))
        self.append(new)
        new.cleanup()
        return
    if not internal:
        return
    add = SequenceList()
    if not np.allclose(self.start, kids[0].start):
        add += [self.subset_class((self.start, kids[0].start, ""))]
    if not np.allclose(self.end, kids[-1].end):
        add += [self.subset_class((kids[-1].end, self.end, ""))]
    for i, k in enumerate(kids):
        if i + 1 == len(kids):
            break
        if not np.allclose(k.end, kids[i + 1].start):
            add += [self.subset_class((k.end, kids[i + 1].start, ""))]
    for new in add:
        self.append(new)


def absorb(self, other):
    if self.superset_class is Top and self.intier:
        self.intier.pop(other)
    else:
        if self.intier:
            self.intier.pop(other)
        if self.super_instance and other in self.super_instance:
            self.super_instance.subset_list.remove(other)


@spec("SequenceInterval.fuse_rightwards", props="C18 C01 C02")
def fuse_rightwards(self, label_fun=lambda x, y: " ".join([x, y])):
    other = self.fol
    if other.label == "#":
        raise Exception
    self._end = other.end
    self.set_fol(other.fol)
    self.label = label_fun(self.label, other.label)
    self.subset_list = self._subset_list + other._subset_list
    absorb(self, other)


@spec("SequenceInterval.fuse_leftwards", props="C18 C01 C02", opts="noret")
def fuse_leftwards(self, label_fun=lambda x, y: " ".join([x, y])):
    other = self.prev
    if other.label == "#":
        raise Exception
    self._start = other.start
    self.set_prev(other.prev)
    self.label = label_fun(other.label, self.label)
    self.subset_list = other._subset_list + self._subset_list
    absorb(self, other)


@spec("SequenceInterval.fuse_rightward", props="C18", opts="noret")
def fuse_rightward(self, *args, **kwargs):
    self.fuse_rightwards(*args, **kwargs)


@spec("SequenceInterval.fuse_leftward", props="C18", opts="noret")
def fuse_leftward(self, *args, **kwargs):
    self.fuse_leftwards(*args, **kwargs)


@spec("SequenceInterval.set_feature", props="C22")
def set_feature(self, feature: "str", value):
    setattr(self, feature, value)


@spec("SequenceInterval.__add__", props="C25 C03 C02")
def add_interval(self, other: "SequenceInterval"):
    twin = self.entry_class(self)
    twin.__dict__ = self.__dict__
    if issubclass(self.entry_class, other.superset_class):
        twin.subset_list += [other]
        return twin
    if issubclass(self.entry_class, other.subset_class):
        other.subset_list += [twin]
        return twin
    raise ValueError
