"""Contracts of points."""


def blank_point(self, time, label):
    self._seq_type = SequencePoint
    self._time = time
    self.label = label
    self.intier = None
    self.tiername = None
    with OPTIONAL:
        self.pointspool = None
    self.fol = None
    self.prev = None
    if label != "#":
        self.set_final()
        self.set_initial()


@spec("SequencePoint.__init__", props="C19 C11 C01")
def init_copy(self, point: "SequencePoint" = (None, None)):
    blank_point(self, point.time, point.label)


@spec("SequencePoint.__init__", props="C19 C11 C01 C03")
def init_raw(self, point: "list:num" = (None, None)):
    if len(point) > 2:
        raise ValueError
    p = Point(*point)
    blank_point(self, p.time, p.label)


@spec("SequencePoint.entry_class:get", props="C03")
def entry_class(self):
    return self.__class__


@spec("SequencePoint.time:get", "SequencePoint.start:get", props="C16 C09 C13")
def time_get(self):
    return self._time


@spec("SequencePoint.time:set", props="C16 C09")
def time_set(self, time: "num"):
    self._time = time


@spec("SequencePoint._shift", props="C09")
def shift(self, increment: "num"):
    self._time = self._time + increment


@spec("SequencePoint.fol_distance:get", props="C12 C16", opts="nowarn")
def fol_distance(self):
    if self.fol is None or self.fol.time is None:
        return None
    return self.fol.time - self.time


@spec("SequencePoint.prev_distance:get", props="C12 C16", opts="nowarn")
def prev_distance(self):
    if self.prev is None or self.prev.time is None:
        return None
    return self.prev.time - self.time


@spec("SequencePoint.distance_from", props="C12")
def distance_from_point(self, entry: "SequencePoint"):
    return np.array(self.time - entry.time)


@spec("SequencePoint.distance_from", props="C12")
def distance_from_interval(self, entry: "SequenceInterval"):
    return self.time - np.array([entry.start, entry.end])


@spec("SequencePoint.get_interval_index_at_time", "SequencePoint.get_interval_at_point", props="C12")
def no_interval_in_points(self, tier: "SequencePointTier" = None):
    return None


@spec("SequencePoint.get_interval_index_at_time", "SequencePoint.get_interval_at_point", props="C12")
def no_interval_in_nothing(self, tier: "none" = None):
    return None


@spec("SequencePoint.get_interval_index_at_time", props="C12")
def get_interval_index_at_time(self, tier: "SequenceTier?" = None):
    REQUIRE(tier is None or len(tier) > 0)
    if tier is None:
        return None
    return tier.get_interval_at_time(self.time)


@spec("SequencePoint.get_interval_at_point", props="C12")
def get_interval_at_point(self, tier: "SequenceTier?" = None):
    REQUIRE(tier is None or len(tier) > 0)
    if tier is None:
        return None
    i = tier.get_interval_at_time(self.time)
    if i is None:
        return None
    return tier[i]


# ---- what points do not support: a warning, and nothing changes -------------------------------------------

@spec("SequencePoint.__contains__", "SequencePoint.__getitem__", props="C03 C20")
def unsupported(self, x: ""):
    warnings.warn("")
    return None


@spec("SequencePoint.__add__", props="C03 C25")
def unsupported_add(self, x: "SequencePoint"):
    warnings.warn("")
    return self


@spec("SequencePoint.append", props="C03")
def unsupported_append(self, x: "SequencePoint"):
    warnings.warn("")
