"""Contracts of what the modules declare about the shipped classes when they are imported."""


@spec("module:sequences.sequences", props="C04 C19")
def sequences():
    Top.set_superset_class()
    Bottom.set_subset_class()
    SequenceInterval.set_superset_class(Top)
    SequenceInterval.set_subset_class(Bottom)
    SequenceInterval._seq_type = SequenceInterval


@spec("module:sequences.word_and_phone", props="C04 C19")
def word_and_phone():
    Word.set_superset_class(Top_wp)
    Word.set_subset_class(Phone)
    Phone.set_subset_class(Bottom_wp)


@spec("module:sequences.tiers", props="C04 C03 C19")
def tiers():
    SequenceTier._seq_type = SequenceInterval
    TierGroup._seq_type = SequenceInterval


@spec("module:points.points", props="C04 C03 C19")
def points():
    SequencePoint._seq_type = SequencePoint


@spec("module:points.tiers", props="C04 C03 C19")
def point_tiers():
    SequencePointTier._seq_type = SequencePoint
    PointsGroup._seq_type = SequencePoint
