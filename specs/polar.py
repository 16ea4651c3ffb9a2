"""Contracts of the PoLaR classes and grid."""


@spec("PrStr.certainty:get", "TurningPoints.certainty:get", "Levels.certainty:get", props="C21 C16")
def certainty(self):
    return "uncertain" if "?" in self.label else "certain"


@spec("PrStr.status:get", props="C21 C16")
def status(self):
    if "*" in self.label:
        return "prominence"
    if "]" in self.label:
        return "edge"
    warnings.warn("")
    return self.label


@spec("PrStr.__init__", "ToBI.__init__", props="C21 C11 C19", opts="nodefaults")
def init_point(self, Point):
    SequencePoint.__init__(self, Point)


@spec("Ranges.__init__", props="C21 C11 C19")
def init_ranges(self, Interval):
    SequenceInterval.__init__(self, Interval)


@spec("TurningPoints.__init__", props="C21 C11")
def init_turning_point(self, Point):
    SequencePoint.__init__(self, Point)
    self.level = None


@spec("Levels.__init__", props="C21 C11")
def init_level(self, Point):
    SequencePoint.__init__(self, Point)
    self.ranges_tier = None
    self.range_interval = None
    self.turning_point = None


@spec("TurningPoints.set_level", props="C21")
def set_level(self, tier: "SequencePointTier"):
    other = tier.get_nearest_point(self.time)
    if not self.level is other and np.allclose(self.time, other.time):
        self.level = other
        other.set_turning_point(self.intier)


@spec("Levels.set_turning_point", props="C21")
def set_turning_point(self, tier: "SequencePointTier"):
    other = tier.get_nearest_point(self.time)
    if not self.turning_point is other and np.allclose(self.time, other.time):
        self.turning_point = other
        other.set_level(self.intier)


@spec("TurningPoints.override:get", props="C21 C16")
def override(self):
    last = self.label.split(",")[-1]
    return None if last == "0" else last


@spec("Ranges.range:get", props="C21 C16")
def range_get(self):
    try:
        nums = [float(x) for x in self.label.split("-")]
    except ValueError:
        nums = [np.nan, np.nan]
    return np.array(nums)


@spec("Ranges.low:get", props="C21 C16")
def low(self):
    return self.range[0]


@spec("Ranges.high:get", props="C21 C16")
def high(self):
    return self.range[1]


@spec("Ranges.bands:get", props="C21 C16")
def bands(self):
    return np.linspace(self.low, self.high, num=6)


@spec("Levels.set_ranges_tier", props="C21")
def set_ranges_tier(self, tier: "SequenceTier"):
    self.ranges_tier = tier


@spec("Levels.set_range_interval", props="C21")
def set_range_interval(self):
    if self.ranges_tier:
        self.range_interval = self.get_interval_at_point(self.ranges_tier)


@spec("Levels.level:get", props="C21 C16")
def level(self):
    return int(self.label.replace("?", ""))


@spec("Levels.band:get", props="C21 C16")
def band(self):
    return self.range_interval.bands[self.level - 1:self.level + 1]


@spec("PolarGrid._set_named_accessors", props="C22 C21")
def named_accessors(self):
    for g in self.tier_groups:
        for t in g:
            setattr(self, t.entry_class.__name__, t)


@spec("PolarGrid._relate_levels_and_ranges", props="C21")
def relate_ranges(self):
    if self.Levels and self.Ranges:
        for x in self.Levels:
            x.set_ranges_tier(self.Ranges)
            x.set_range_interval()


@spec("PolarGrid._relate_levels_and_points", props="C21")
def relate_points(self):
    for x in self.Levels:
        x.set_turning_point(self.TurningPoints)


@spec("PolarGrid._name_groups", props="C22")
def name_groups(self):
    for g in self:
        cs = g.entry_classes
        if any([issubclass(c, k) for c in cs for k in [Word, Phone]]):
            g.name = "Word_Phone"
        if any([issubclass(c, k) for c in cs for k in [PrStr, ToBI, TurningPoints, Ranges, Levels, Misc]]):
            g.name = "Points"
        if any([issubclass(c, k) for c in cs for k in [Ranges]]):
            g.name = "RangesTier"


@spec("PolarGrid.__init__", props="C21 C22 C11")
def init_grid(self, textgrid=None, textgrid_path: "str?" = None, entry_classes: "list:*" = None):
    AlignedTextGrid.__init__(self, textgrid=textgrid, textgrid_path=textgrid_path, entry_classes=entry_classes)
    self._set_named_accessors()
    self._relate_levels_and_ranges()
    self._relate_levels_and_points()
    self._name_groups()
    self._set_group_names()
