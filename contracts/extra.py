"""Contracts outside the distribution families."""


def generate(prop):
    from . import data, finite, funs, stats, multi
    data.generate(prop)
    finite.generate(prop)
    funs.generate(prop)
    stats.generate(prop)
    multi.generate(prop)
