"""properties stated but not claimed, with the reason"""
NA = []
