T = 'contracts for this part are still being written'
PARTIAL.update({})
