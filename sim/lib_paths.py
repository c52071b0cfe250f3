'names of the library classes, without importing the library'
CLASS_PATH = {
    'outpoint': 'tx.Outpoint', 'txin': 'tx.TxIn', 'txout': 'tx.TxOut',
    'item': 'tx.WitnessStackItem', 'wit': 'tx.InputWitness',
    'varint': 'shared.VarInt', 'doutpoint': 'decred.DecredOutpoint',
    'dtxin': 'decred.DecredTxIn', 'dtxout': 'decred.DecredTxOut',
    'dwit': 'decred.DecredInputWitness', 'sproof': 'zs.SproutZkproof',
    'sjs': 'zs.SproutJoinsplit', 'gproof': 'sapling.SaplingZkproof',
    'gjs': 'sapling.SaplingJoinsplit', 'ss': 'sapling.SaplingShieldedSpend',
    'so': 'sapling.SaplingShieldedOutput', 'btc': 'tx.Tx',
    'dcr': 'decred.DecredTx', 'spr': 'sprout.SproutTx',
    'ow': 'overwinter.OverwinterTx', 'sap': 'sapling.SaplingTx',
}
