def equal_to(expected):
    def check(actual):
        assert sorted(map(repr, actual)) == sorted(map(repr, expected)), actual

    return check


def assert_that(pcollection, matcher, label=None):
    matcher(pcollection.values)
