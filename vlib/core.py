class Violation(Exception):
    def __init__(self, message, key=None, **detail):
        Exception.__init__(self, message)
        self.message = message
        self.key = key or message[:80]
        self.detail = {k: (v if isinstance(v, (str, int, float, list))
                           else repr(v)) for k, v in detail.items()}


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def need(cond, message, /, key=None, **detail):
    if not cond:
        raise Violation(message, key=key, **detail)


def same(got, want, message, /, key=None, **detail):
    if got != want or type(got) is not type(want):
        raise Violation(message, key=key, **dict(
            detail, is_=repr(got), should_be=repr(want)))
