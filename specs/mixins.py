"""Contracts of the behaviour shared by intervals and points, and of containment."""


@spec("SequenceInterval.set_fol", "SequencePoint.set_fol", props="C01 C03", opts="nolink")
def set_fol(self, next_int: "@"):
    if next_int is self:
        raise Exception
    if self.label == "#":
        return
    if self.fol is next_int:
        return
    if type(next_int) is not type(self):
        raise Exception
    self.fol = next_int
    next_int.set_prev(self)


@spec("SequenceInterval.set_prev", "SequencePoint.set_prev", props="C01 C03", opts="nolink")
def set_prev(self, prev_int: "@"):
    if prev_int is self:
        raise Exception
    if self.label == "#":
        return
    if self.prev is prev_int:
        return
    if type(prev_int) is not type(self):
        raise Exception
    self.prev = prev_int
    prev_int.set_fol(self)


@spec("SequenceInterval.set_final", props="C01 C03", opts="nolink")
def set_final_interval(self):
    self.set_fol(type(self)(Interval(None, None, "#")))


@spec("SequenceInterval.set_initial", props="C01 C03", opts="nolink")
def set_initial_interval(self):
    self.set_prev(type(self)(Interval(None, None, "#")))


@spec("SequencePoint.set_final", props="C01 C03", opts="nolink")
def set_final_point(self):
    self.set_fol(type(self)(Point(None, "#")))


@spec("SequencePoint.set_initial", props="C01 C03", opts="nolink")
def set_initial_point(self):
    self.set_prev(type(self)(Point(None, "#")))


@spec("SequenceInterval.first:get", props="C20 C02")
def first(self):
    if len(self._subset_list) == 0:
        raise IndexError
    return self._subset_list[0]


@spec("SequenceInterval.last:get", props="C20 C02")
def last(self):
    if len(self._subset_list) == 0:
        raise IndexError
    return self._subset_list[-1]


@spec("SequencePoint.first:get", "SequencePoint.last:get", props="C20")
def first_point(self):
    raise AttributeError


@spec("SequenceInterval.tier_index:get", "SequencePoint.tier_index:get", props="C07")
def tier_index(self):
    if self.intier is None:
        return None
    return self.intier.index(self)


@spec("SequenceInterval.get_tierwise", "SequencePoint.get_tierwise", props="C07")
def get_tierwise(self, idx: "int" = 0):
    if self.intier is None:
        return None
    return self.intier[self.intier.index(self) + idx]


@spec("SequenceInterval.return_praatio", "SequenceInterval.return_interval", props="C10")
def return_interval(self):
    return Interval(self.start, self.end, self.label)


@spec("SequencePoint.return_praatio", "SequencePoint.return_point", props="C10")
def return_point(self):
    return Point(self.time, self.label)


@spec("SequenceInterval._cast", "SequencePoint._cast", props="C03 C19 C11")
def cast(cls, obj: "SequenceInterval|SequencePoint", re_init=False):
    assert isinstance(obj, cls._seq_type)
    obj.__class__ = cls
    if re_init:
        obj.__init__(obj)
    return obj


# ---- containment ------------------------------------------------------------

@spec("SequenceInterval.within:get", "SequencePoint.within:get", "SequenceTier.within:get", "SequencePointTier.within:get",
      "TierGroup.within:get", "PointsGroup.within:get", "AlignedTextGrid.within:get", props="C08")
def within_get(self):
    if hasattr(self, "_within"):
        return self._within
    return None


@spec("SequenceInterval.within:set", "SequencePoint.within:set", "SequenceTier.within:set", "SequencePointTier.within:set",
      "TierGroup.within:set", "PointsGroup.within:set", "AlignedTextGrid.within:set", props="C08")
def within_set(self, obj):
    self._within = obj


@spec("SequenceInterval.contains:get", "SequencePoint.contains:get", "SequenceTier.contains:get", "SequencePointTier.contains:get",
      "TierGroup.contains:get", "PointsGroup.contains:get", "AlignedTextGrid.contains:get", props="C08")
def contains_get(self):
    if hasattr(self, "_contains"):
        return self._contains
    return []


@spec("SequenceInterval.contains:set", props="C08 C02")
def contains_set_interval(self, new_contains: "SL:SequenceInterval"):
    self._contains = new_contains
    for item in new_contains:
        if item.within is not self:
            item._within = self


@spec("SequenceTier.contains:set", props="C08")
def contains_set_tier(self, new_contains: "SL:SequenceInterval"):
    self._contains = new_contains
    for item in new_contains:
        if item.within is not self:
            item._within = self


@spec("TierGroup.contains:set", props="C08")
def contains_set_group(self, new_contains: "list:SequenceTier"):
    self._contains = new_contains
    for item in new_contains:
        if item.within is not self:
            item._within = self


@spec("PointsGroup.contains:set", props="C08")
def contains_set_pgroup(self, new_contains: "list:SequencePointTier"):
    self._contains = new_contains
    for item in new_contains:
        if item.within is not self:
            item._within = self


@spec("AlignedTextGrid.contains:set", props="C08")
def contains_set_grid(self, new_contains: "list:TierGroup|PointsGroup"):
    self._contains = new_contains
    for item in new_contains:
        if item.within is not self:
            item._within = self


@spec("SequenceInterval.within_index:get", "SequencePoint.within_index:get", "SequenceTier.within_index:get",
      "SequencePointTier.within_index:get", "TierGroup.within_index:get", "PointsGroup.within_index:get", props="C08")
def within_index(self):
    if hasattr(self, "_within") and hasattr(self._within, "_contains"):
        return self._within._contains.index(self)
    return None


@spec("SequenceInterval._get_within_path", "SequenceTier._get_within_path", "TierGroup._get_within_path", "SequencePoint._get_within_path",
      "SequencePointTier._get_within_path", "PointsGroup._get_within_path", props="C08")
def path_upwards(self, obj: "@"):
    at = obj.within_index
    if at is None:
        return []
    return [at] + self._get_within_path(obj.within)


@spec("SequenceInterval.within_path:get", "SequenceTier.within_path:get", "TierGroup.within_path:get", "SequencePoint.within_path:get",
      "SequencePointTier.within_path:get", "PointsGroup.within_path:get", props="C08")
def within_path(self):
    path = self._get_within_path(self)
    path.reverse()
    return path


@spec("SequenceInterval.id:get", "SequenceTier.id:get", "TierGroup.id:get", "SequencePoint.id:get",
      "SequencePointTier.id:get", "PointsGroup.id:get", props="C08")
def id_get(self):
    return "-".join([str(x) for x in self.within_path])
