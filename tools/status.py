NA = {}
NOTES = {}
