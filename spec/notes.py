NOTES = {}
NOT_APPLICABLE = {}
