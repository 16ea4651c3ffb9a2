"""Contracts of interval tiers."""


def place(self):
    """each entry knows its tier; entries without a parent are chained in time order"""
    seqs = self._sequence_list
    n = len(seqs)
    for i in range(n):
        s = seqs[i]
        s.intier = self
        s.tiername = self.name
        if s.super_instance is not None:
            continue
        if i == 0:
            s.set_initial()
        else:
            s.set_prev(seqs[i - 1])
        if i == n - 1:
            s.set_final()
        else:
            s.set_fol(seqs[i + 1])
    if issubclass(self.superset_class, Top):
        self.contains = seqs


def build(self, entries, entry_class, name):
    with OPTIONAL:
        self.entry_list = list(entries)
    self.name = name
    with OPTIONAL:
        self._sequence_list = SequenceList()
    self.entry_class = entry_class
    self.superset_class = entry_class.superset_class
    self.subset_class = entry_class.subset_class
    self.sequence_list = SequenceList(*[entry_class._cast(x) for x in entries])
    with OPTIONAL:
        place(self)


@spec("SequenceTier.__init__", props="C11 C07 C19 C03 C15")
def init_list(self, tier: "list:SequenceInterval" = SequenceList(), entry_class: "cls:SequenceInterval?" = None):
    if entry_class is None:
        entry_class = SequenceInterval if len(tier) == 0 else tier[0].entry_class
    build(self, tier, entry_class, entry_class.__name__)


@spec("SequenceTier.__init__", props="C11 C07 C19 C03 C22 C15")
def init_tier(self, tier: "SequenceTier" = SequenceList(), entry_class: "cls:SequenceInterval?" = None):
    if entry_class is None:
        entry_class = SequenceInterval if len(tier) == 0 else tier[0].entry_class
    name = entry_class.__name__
    if tier.name != tier.entry_class.__name__:
        name = tier.name
    build(self, tier._sequence_list, entry_class, name)


@spec("SequenceTier.sequence_list:get", "SequencePointTier.sequence_list:get", props="C20 C07")
def sequence_list_get(self):
    return self._sequence_list


@spec("SequenceTier.sequence_list:set", props="C07 C01 C08 C06 C15")
def sequence_list_set(self, new: "list:SequenceInterval"):
    self._sequence_list = SequenceList(*new)
    place(self)


@spec("SequenceTier.__getitem__", "SequencePointTier.__getitem__", props="C20")
def getitem(self, idx: "int"):
    return self._sequence_list[idx]


@spec("SequenceTier.__len__", "SequencePointTier.__len__", props="C20")
def len_(self):
    return len(self._sequence_list)


@spec("SequenceTier.pop", props="C07 C01 C18 C02")
def pop(self, entry: "SequenceInterval"):
    if entry not in self._sequence_list:
        raise Exception
    top = entry.super_instance is None
    self._sequence_list.remove(entry)
    if top:
        place(self)


@spec("SequenceTier.starts:get", props="C16 C12 C09")
def starts_get(self):
    return np.array([x.start for x in self._sequence_list])


@spec("SequenceTier.ends:get", props="C16 C12 C09")
def ends_get(self):
    return np.array([x.end for x in self._sequence_list])


@spec("SequenceTier.starts:set", props="C16 C09")
def starts_set(self, times: "list:num"):
    if len(self._sequence_list) != len(times):
        raise Exception
    for i in range(len(times)):
        self._sequence_list[i].start = times[i]


@spec("SequenceTier.ends:set", props="C16 C09")
def ends_set(self, times: "list:num"):
    if len(self._sequence_list) != len(times):
        raise Exception
    for i in range(len(times)):
        self._sequence_list[i].end = times[i]


@spec("SequenceTier._shift", props="C09")
def shift(self, increment: "num"):
    for x in self._sequence_list:
        x._start = x._start + increment
    for x in self._sequence_list:
        x._end = x._end + increment


@spec("SequenceTier.labels:get", "SequencePointTier.labels:get", props="C16 C13")
def labels(self):
    return [x.label for x in self._sequence_list]


@spec("SequenceTier.xmin:get", props="C16 C25")
def xmin(self):
    if len(self._sequence_list) == 0:
        return None
    return self._sequence_list.starts.min()


@spec("SequenceTier.xmax:get", props="C16 C25 C09")
def xmax(self):
    if len(self._sequence_list) == 0:
        return None
    return self._sequence_list.ends.max()


@spec("SequenceTier.cleanup", props="C17")
def cleanup(self):
    if np.allclose(self.starts[1:], self.ends[:-1]):
        return
    bounds = np.unique(np.concatenate([self.starts, self.ends]))
    gap_starts = bounds[:-1][~np.isin(bounds[:-1], self.starts)]
    gap_ends = bounds[1:][~np.isin(bounds[1:], self.ends)]
    for s, e in zip(gap_starts, gap_ends):
        self._sequence_list.append(self.entry_class((s, e, "")))
    if issubclass(self.subset_class, Bottom):
        if self.within:
            self.within.re_relate()
            return
    if self.within:
        self.within[self.within_index + 1].cleanup()


@spec("SequenceTier.get_interval_at_time", props="C12")
def get_interval_at_time(self, time: "num"):
    hit = np.argwhere(np.logical_and(self.starts <= time, self.ends > time))
    if hit.size >= 1:
        return int(hit.squeeze())
    return None


@spec("SequenceTier.return_tier", props="C10")
def return_tier(self, name: "str?" = None):
    if name is None:
        name = self.name
    return IntervalTier(name=name, entries=[x.return_interval() for x in self._sequence_list])


@spec("SequenceTier.save_as_tg", "SequencePointTier.save_as_tg", props="C10")
def save_as_tg(self, save_path: "str"):
    tg = Textgrid()
    tg.addTier(tier=self.return_tier())
    tg.save(save_path, "long_textgrid")


# ---- shared by interval and point tiers -------------------------------------------------

@spec("SequenceTier.__add__", props="C25 C03 C06")
def add(self, new: "SequenceTier|SequencePointTier|TierGroup"):
    if not isinstance(new, self.__class__):
        raise ValueError
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    return self.__class__(self._sequence_list + new._sequence_list)


@spec("SequencePointTier.__add__", props="C25 C03 C06")
def add_points(self, new: "SequencePointTier|SequenceTier"):
    if not isinstance(new, self.__class__):
        raise ValueError
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    return self.__class__(self._sequence_list + new._sequence_list)


@spec("SequenceTier.append", props="C25 C03 C07 C02")
def append(self, new: "SequenceInterval", re_relate=True):
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    if new in self:
        return
    self.sequence_list = self._sequence_list + [new]
    if len(new._subset_list) > 0 and self.within:
        for x in new._subset_list:
            self.within[self.within_index + 1].append(x, re_relate=False)
    if new.super_instance and self.within:
        self.within[self.within_index - 1].append(new.super_instance, re_relate=False)
    if self.within and re_relate:
        self.within.re_relate()


@spec("SequencePointTier.append", props="C25 C03 C07")
def append_point(self, new: "SequencePoint", re_relate=True):
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    if new in self:
        return
    self.sequence_list = self._sequence_list + [new]
    if self.within and re_relate:
        self.within.re_relate()


@spec("SequenceTier.append", "SequencePointTier.append", props="C03 C25")
def append_wrong(self, new: "SequenceTier|SequencePointTier|TierGroup", re_relate=True):
    raise ValueError


@spec("SequenceTier.concat", props="C25 C03 C09 C07")
def concat(self, new: "SequenceTier"):
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    mine = self._sequence_list
    mine.concat(new._sequence_list)
    self.sequence_list = mine


@spec("SequencePointTier.concat", props="C25 C03 C09 C07")
def concat_points(self, new: "SequencePointTier"):
    if not (issubclass(self.entry_class, new.entry_class) or issubclass(new.entry_class, self.entry_class)):
        raise ValueError
    mine = self._sequence_list
    mine.concat(new._sequence_list)
    self.sequence_list = mine


@spec("SequenceTier.first:get", "SequencePointTier.first:get", props="C20")
def first(self):
    if len(self._sequence_list) == 0:
        raise IndexError
    return self._sequence_list[0]


@spec("SequenceTier.last:get", "SequencePointTier.last:get", props="C20")
def last(self):
    if len(self._sequence_list) == 0:
        raise IndexError
    return self._sequence_list[-1]


@spec("SequenceTier.__init__", props="C11 C03 C22")
def init_praat(self, tier: "praatio.IntervalTier" = SequenceList(), entry_class: "cls:SequenceInterval?" = None):
    if entry_class is None:
        entry_class = SequenceInterval
    build(self, tier.entries, entry_class, tier.name)
