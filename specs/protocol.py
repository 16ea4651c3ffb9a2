"""Contracts of protocol methods that the classes may, but need not, define themselves.

Where a class leaves them out Python's default applies, and that is what these say; "optional" contracts are checked only
against classes of the package that do define the method, "alt" ones are alternatives of which one has to hold."""


@spec("SequenceInterval.__eq__", "SequencePoint.__eq__", "SequenceTier.__eq__", "SequencePointTier.__eq__", "TierGroup.__eq__",
      "PointsGroup.__eq__", "SequenceList.__eq__", "AlignedTextGrid.__eq__", props="C20 C01 C02 C06 C07 C08 C17 C18 C21 C25", opts="optional alt strict")
def same(self, other):
    return self is other


@spec("SequenceInterval.__eq__", "SequencePoint.__eq__", "SequenceTier.__eq__", "SequencePointTier.__eq__", "TierGroup.__eq__",
      "PointsGroup.__eq__", "SequenceList.__eq__", "AlignedTextGrid.__eq__", props="C20 C01 C02 C06 C07 C08 C17 C18 C21 C25", opts="optional alt strict")
def same_or_ask(self, other):
    if self is other:
        return True
    return NotImplemented


@spec("SequenceInterval.__ne__", "SequencePoint.__ne__", "SequenceTier.__ne__", "SequencePointTier.__ne__", "TierGroup.__ne__",
      "PointsGroup.__ne__", "SequenceList.__ne__", "AlignedTextGrid.__ne__", props="C20 C01 C02 C06 C07 C08 C17 C18 C21 C25", opts="optional alt strict")
def other_object(self, other):
    return self is not other


@spec("SequenceInterval.__ne__", "SequencePoint.__ne__", "SequenceTier.__ne__", "SequencePointTier.__ne__", "TierGroup.__ne__",
      "PointsGroup.__ne__", "SequenceList.__ne__", "AlignedTextGrid.__ne__", props="C20 C01 C02 C06 C07 C08 C17 C18 C21 C25", opts="optional alt strict")
def not_equal(self, other):
    return not self == other


@spec("SequenceInterval.__bool__", "SequenceTier.__bool__", "SequencePointTier.__bool__", "TierGroup.__bool__", "PointsGroup.__bool__",
      "SequenceList.__bool__", "AlignedTextGrid.__bool__", props="C20", opts="optional strict")
def nonempty(self):
    return len(self) > 0


@spec("SequencePoint.__bool__", props="C20", opts="optional strict")
def present(self):
    return True


@spec("SequenceTier.__iter__", "SequencePointTier.__iter__", props="C20 C09 C10 C13 C14 C25", opts="optional strict")
def iter_tier(self):
    return iter(self.sequence_list)


@spec("TierGroup.__iter__", "PointsGroup.__iter__", props="C20 C08 C09 C10 C12 C13 C14 C25", opts="optional strict")
def iter_group(self):
    return iter(self.tier_list)


@spec("AlignedTextGrid.__iter__", props="C20 C08 C09 C10 C12 C13 C14 C25", opts="optional strict")
def iter_grid(self):
    return iter(self.tier_groups)


@spec("SequenceList.__iter__", props="C20 C01 C06 C09 C10 C13 C14 C25", opts="optional strict")
def iter_list(self):
    return iter(self._values)


@spec("SequenceInterval.__reversed__", props="C20", opts="optional strict")
def rev_interval(self):
    return reversed(self._subset_list)


@spec("SequenceList.__reversed__", props="C20", opts="optional strict")
def rev_list(self):
    return reversed(self._values)


@spec("SequenceTier.__reversed__", "SequencePointTier.__reversed__", props="C20", opts="optional strict")
def rev_tier(self):
    return reversed(self.sequence_list)


@spec("TierGroup.__reversed__", "PointsGroup.__reversed__", props="C20", opts="optional strict")
def rev_group(self):
    return reversed(self.tier_list)


@spec("AlignedTextGrid.__reversed__", props="C20", opts="optional strict")
def rev_grid(self):
    return reversed(self.tier_groups)


@spec("SequenceTier.__contains__", "SequencePointTier.__contains__", props="C20", opts="optional strict")
def in_tier(self, item: "SequenceInterval|SequencePoint"):
    return item in self.sequence_list


@spec("TierGroup.__contains__", "PointsGroup.__contains__", props="C20 C08", opts="optional strict")
def in_group(self, item: "SequenceTier|SequencePointTier"):
    return item in self.tier_list


@spec("AlignedTextGrid.__contains__", props="C20 C08", opts="optional strict")
def in_grid(self, item: "TierGroup|PointsGroup"):
    return item in self.tier_groups


@spec("SequenceList.index", props="C20 C06", opts="optional strict")
def index_list(self, value: "SequenceInterval|SequencePoint"):
    return self._values.index(value)


@spec("SequenceTier.index", "SequencePointTier.index", props="C20", opts="optional strict")
def index_tier(self, value: "SequenceInterval|SequencePoint"):
    return self.sequence_list.index(value)


@spec("TierGroup.index", "PointsGroup.index", props="C20 C08", opts="optional strict")
def index_group(self, value: "SequenceTier|SequencePointTier"):
    return self.tier_list.index(value)


@spec("AlignedTextGrid.index", props="C20 C08", opts="optional strict")
def index_grid(self, value: "TierGroup|PointsGroup"):
    return self.tier_groups.index(value)


# ---- saving and restoring: what Python's default does --------------------------------------------------

@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore(self, d):
    self.__dict__ = d


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_by_update(self, d):
    self.__dict__.update(d)


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_one_by_one(self, d):
    for k, v in d.items():
        setattr(self, k, v)


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_item_by_item(self, d):
    for k, v in d.items():
        self.__dict__[k] = v


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_copy(self, d):
    self.__dict__ = dict(d)


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_copied(self, d):
    self.__dict__ = d.copy()


@spec("SequenceInterval.__getstate__", "SequencePoint.__getstate__", "SequenceTier.__getstate__", "SequencePointTier.__getstate__", "TierGroup.__getstate__",
      "PointsGroup.__getstate__", "SequenceList.__getstate__", "AlignedTextGrid.__getstate__", props="C26", opts="optional alt strict")
def state(self):
    return self.__dict__


@spec("SequenceInterval.__getstate__", "SequencePoint.__getstate__", "SequenceTier.__getstate__", "SequencePointTier.__getstate__", "TierGroup.__getstate__",
      "PointsGroup.__getstate__", "SequenceList.__getstate__", "AlignedTextGrid.__getstate__", props="C26", opts="optional alt strict")
def state_copied(self):
    return self.__dict__.copy()


@spec("SequenceInterval.__getstate__", "SequencePoint.__getstate__", "SequenceTier.__getstate__", "SequencePointTier.__getstate__", "TierGroup.__getstate__",
      "PointsGroup.__getstate__", "SequenceList.__getstate__", "AlignedTextGrid.__getstate__", props="C26", opts="optional alt strict")
def state_as_dict(self):
    return dict(self.__dict__)


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_pairs(self, d):
    self.__dict__ = {k: v for k, v in d.items()}


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_keys(self, d):
    for k in d:
        self.__dict__[k] = d[k]


@spec("SequenceInterval.__setstate__", "SequencePoint.__setstate__", "SequenceTier.__setstate__", "SequencePointTier.__setstate__", "TierGroup.__setstate__",
      "PointsGroup.__setstate__", "SequenceList.__setstate__", "AlignedTextGrid.__setstate__", props="C26", opts="optional alt strict")
def restore_keys_set(self, d):
    for k in d:
        setattr(self, k, d[k])


@spec("SequenceInterval.__getstate__", "SequencePoint.__getstate__", "SequenceTier.__getstate__", "SequencePointTier.__getstate__", "TierGroup.__getstate__",
      "PointsGroup.__getstate__", "SequenceList.__getstate__", "AlignedTextGrid.__getstate__", props="C26", opts="optional alt strict")
def state_pairs(self):
    return {k: v for k, v in self.__dict__.items()}


@spec("SequenceList.__iadd__", props="C06 C07 C20", opts="optional alt strict")
def add_in_place(self, values: "SequenceList"):
    for v in values:
        self.append(v)
    return self


@spec("SequenceTier.count", "SequencePointTier.count", props="C20", opts="optional strict")
def count_tier(self, value: "SequenceInterval|SequencePoint"):
    return self.sequence_list.count(value)


@spec("SequenceList.count", props="C20", opts="optional strict")
def count_list(self, value: "SequenceInterval|SequencePoint"):
    return self._values.count(value)


@spec("TierGroup.count", "PointsGroup.count", props="C20", opts="optional strict")
def count_group(self, value: "SequenceTier|SequencePointTier"):
    return self.tier_list.count(value)


@spec("AlignedTextGrid.count", props="C20", opts="optional strict")
def count_grid(self, value: "TierGroup|PointsGroup"):
    return self.tier_groups.count(value)
