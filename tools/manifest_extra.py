LEVEL = {}
NOTE = {}
NA = {}
