"""Stand-in: ml_dtypes is not installed here; nothing generated by the check uses bfloat16."""


class bfloat16:
    pass
