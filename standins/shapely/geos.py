class ReadingError(Exception):
    pass
