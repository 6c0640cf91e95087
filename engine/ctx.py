LIMIT = 300
