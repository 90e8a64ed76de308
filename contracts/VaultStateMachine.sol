// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

import "contracts/V1/AStateMachine.sol";

struct VaultState {
    uint turn;
    address[] participants;
    uint[] balances;
}

/// A second application for the simulator: participants hold balances, pay each other in turns, join with a deposit
/// and leave with what they have. A slashed participant leaves with nothing.
contract VaultStateMachine is AStateMachine {
    VaultState state;

    function pay(address to, uint amount) public {
        require(_tx.header.participant == getNextToWrite(), "Vault: not your turn");
        uint from = _find(_tx.header.participant);
        uint dest = _find(to);
        require(state.balances[from] >= amount, "Vault: too little");
        state.balances[from] -= amount;
        state.balances[dest] += amount;
        state.turn++;
    }

    function _find(address a) internal view returns (uint) {
        for (uint i = 0; i < state.participants.length; i++) if (state.participants[i] == a) return i;
        revert("Vault: unknown");
    }

    function _setState(bytes memory encodedState) internal virtual override {
        state = abi.decode(encodedState, (VaultState));
    }

    function getState() public view virtual override returns (bytes memory) {
        return abi.encode(state);
    }

    function getParticipants() public view virtual override returns (address[] memory) {
        return state.participants;
    }

    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return address(0);
        return state.participants[state.turn % state.participants.length];
    }

    function _take(address adr, bool keep) internal returns (bool, ProcessExit memory) {
        ProcessExit memory e;
        uint n = state.participants.length;
        for (uint i = 0; i < n; i++)
            if (state.participants[i] == adr) {
                e.participant = adr;
                e.amount = keep ? state.balances[i] : 0;
                for (uint j = i; j + 1 < n; j++) {
                    state.participants[j] = state.participants[j + 1];
                    state.balances[j] = state.balances[j + 1];
                }
                state.participants.pop();
                state.balances.pop();
                return (true, e);
            }
        return (false, e);
    }

    function _slashParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        return _take(adr, false);
    }

    function _removeParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        return _take(adr, true);
    }

    function _joinChannel(JoinChannel memory jc) internal virtual override returns (bool) {
        for (uint i = 0; i < state.participants.length; i++) if (state.participants[i] == jc.participant) return false;
        if (jc.data.length > 0) return false; // an application may refuse
        state.participants.push(jc.participant);
        state.balances.push(jc.amount);
        return true;
    }
}
