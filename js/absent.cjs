// stands for every Node module in the bundle that plays a browser
module.exports = {};
