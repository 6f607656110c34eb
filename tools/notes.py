NOTES = {}
NA = {}
