EXTRA = {}
NOT = {}
