"""Trajectory collator."""
import collator_common


def run(ctx):
    collator_common.run(ctx, False)
