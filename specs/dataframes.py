"""Contracts of the data frame converters."""


def rows(obj, with_subset):
    cols = ["id", "tier_index", "label", "start"] if isinstance(obj, SequencePoint) else ["id", "tier_index", "label", "start", "end"]
    names = cols
    if isinstance(obj, SequenceInterval) and with_subset:
        names = [f"{type(obj).__name__}_{x}" for x in cols]
    below = None
    if len(obj.contains) > 0 and with_subset:
        sub = pl.concat([sequence_to_df(x) for x in obj.contains], how="diagonal")
        below = sub.shape[0]
    df = pl.DataFrame({x: getattr(obj, x) for x in cols}, schema=names)
    if below:
        df = df.with_columns(n=pl.lit(below)).select(pl.exclude("n").repeat_by("n").explode())
        df = pl.concat([df, sub], how="horizontal")
    if isinstance(obj, SequencePoint) or not with_subset:
        df = df.with_columns(entry_class=pl.lit(type(obj).__name__))
    return df


@spec("func:outputs.to_dataframe.sequence_to_df", props="C13")
def interval_df(obj: "SequenceInterval", with_subset=True):
    return rows(obj, with_subset)


@spec("func:outputs.to_dataframe.sequence_to_df", props="C13")
def point_df(obj: "SequencePoint", with_subset=True):
    return rows(obj, with_subset)


@spec("func:outputs.to_dataframe.tier_to_df", props="C13")
def tier_df(obj: "SequenceTier", with_subset=True):
    return pl.concat([sequence_to_df(x, with_subset) for x in obj], how="diagonal")


@spec("func:outputs.to_dataframe.tier_to_df", props="C13")
def point_tier_df(obj: "SequencePointTier", with_subset=True):
    return pl.concat([sequence_to_df(x, with_subset) for x in obj], how="diagonal")


@spec("func:outputs.to_dataframe.tiergroup_to_df", props="C13")
def group_df(obj: "TierGroup", with_subset=True):
    if with_subset:
        df = tier_to_df(obj[0], with_subset)
    else:
        df = pl.concat([tier_to_df(x, with_subset) for x in obj], how="diagonal")
    return df.with_columns(name=pl.lit(obj.name))


@spec("func:outputs.to_dataframe.tiergroup_to_df", props="C13")
def points_df(obj: "PointsGroup", with_subset=True):
    return pl.concat([tier_to_df(x, with_subset) for x in obj], how="diagonal").with_columns(name=pl.lit(obj.name))


@spec("func:outputs.to_dataframe.textgrid_to_df", props="C13")
def grid_df(obj: "AlignedTextGrid", with_subset=True):
    return pl.concat([tiergroup_to_df(x, with_subset) for x in obj], how="diagonal")


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_interval(obj: "SequenceInterval", with_subset=True):
    return sequence_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_point(obj: "SequencePoint", with_subset=True):
    return sequence_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_tier(obj: "SequenceTier", with_subset=True):
    return tier_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_point_tier(obj: "SequencePointTier", with_subset=True):
    return tier_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_group(obj: "TierGroup", with_subset=True):
    return tiergroup_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_points(obj: "PointsGroup", with_subset=True):
    return tiergroup_to_df(obj, with_subset)


@spec("func:outputs.to_dataframe.to_df", props="C13")
def df_grid(obj: "AlignedTextGrid", with_subset=True):
    return textgrid_to_df(obj, with_subset)
